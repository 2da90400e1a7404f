// C10: constructors, signed distance and transform of half-spaces and planes.  Never executed; analysed as IR.
#include "probe.h"
#include "fcl/geometry/shape/halfspace.h"
#include "fcl/geometry/shape/plane.h"
#include "geometry/shape/halfspace.cpp"
#include "geometry/shape/plane.cpp"
using namespace fcl;
template<class W> static inline void put(const W&w,double*out){ pv(out,w.n); out[3]=w.d; }
static inline void unit(V3 n,double d,double*out){ double l=rt(sq(n[0])+sq(n[1])+sq(n[2])); if(l>0){ for(int i=0;i<3;++i) out[i]=n[i]/l; out[3]=d/l; } else { out[0]=1; out[1]=out[2]=out[3]=0; } }
static inline void moved(const double*in,double*out){ T3 t=gt(in); V3 n=V3::Zero(); double d=in[15]; for(int i=0;i<3;++i){ for(int j=0;j<3;++j) n[i]+=t.linear()(i,j)*in[12+j]; d+=n[i]*t.translation()[i]; } unit(n,d,out); }
#define DO(N,T) \
PROBE impl_##N##_ctor(const double*in,double*out){ T w(gv(in),in[3]); put(w,out); T v(in[0],in[1],in[2],in[3]); put(v,out+4); T u; put(u,out+8); } \
PROBE spec_##N##_ctor(const double*in,double*out){ unit(gv(in),in[3],out); unit(gv(in),in[3],out+4); out[8]=1; out[9]=out[10]=out[11]=0; } \
PROBE impl_##N##_dist(const double*in,double*out){ T w; w.n=gv(in); w.d=in[3]; V3 p=gv(in+4); out[0]=w.signedDistance(p); out[1]=w.distance(p); } \
PROBE spec_##N##_dist(const double*in,double*out){ out[0]=in[0]*in[4]+in[1]*in[5]+in[2]*in[6]-in[3]; out[1]=ab(in[0]*in[4]+in[1]*in[5]+in[2]*in[6]-in[3]); } \
PROBE impl_##N##_tf(const double*in,double*out){ T w; w.n=gv(in+12); w.d=in[15]; put(transform(w,gt(in)),out); } \
PROBE spec_##N##_tf(const double*in,double*out){ moved(in,out); }
//@ hs_ctor what="Halfspace constructors (unit normal, scaled offset)"
//@ hs_dist what="Halfspace::signedDistance and distance"
//@ hs_tf what="transform of a Halfspace"
DO(hs,Halfspace<double>)
//@ pl_ctor what="Plane constructors (unit normal, scaled offset)"
//@ pl_dist what="Plane::signedDistance and distance"
//@ pl_tf what="transform of a Plane"
DO(pl,Plane<double>)
