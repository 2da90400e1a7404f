#include "probe.h"
#include "fcl/geometry/shape/utility.h"
#include "fcl/geometry/shape/box.h"
#include "fcl/geometry/shape/sphere.h"
#include "fcl/geometry/shape/ellipsoid.h"
#include "fcl/geometry/shape/capsule.h"
#include "fcl/geometry/shape/cone.h"
#include "fcl/geometry/shape/cylinder.h"
#include "fcl/geometry/shape/convex.h"
#include "fcl/geometry/shape/triangle_p.h"
#include "fcl/geometry/shape/halfspace.h"
#include "fcl/geometry/shape/plane.h"
#include "fcl/geometry/octree/octree.h"
using namespace fcl;
typedef AABB<double> AA; typedef OBB<double> OB;
static const double BIG=std::numeric_limits<double>::max();
// layout of every posed probe: in[0..11] pose, in[12..] shape parameters
static inline void pa(double*o,const AA&b){ pv(o,b.min_); pv(o+3,b.max_); }
static inline void po(double*o,const OB&b){ pm(o,b.axis); pv(o+9,b.To); pv(o+12,b.extent); }
template<class S> static inline void aabb(const S&s,const double*in,double*out){ AA b; computeBV(s,gt(in),b); pa(out,b); }
template<class S> static inline void obb(const S&s,const double*in,double*out){ OB b; computeBV(s,gt(in),b); po(out,b); }
template<class G> static inline void local(G&s,double*out){ s.G::computeLocalAABB(); pa(out,s.aabb_local); pv(out+6,s.aabb_center); out[9]=s.aabb_radius; }
static inline void spa(const double*in,const double*h,double*out){ for(int i=0;i<3;++i){ out[i]=in[9+i]-h[i]; out[3+i]=in[9+i]+h[i]; } }
// half extents of a posed box with half sides e
static inline void boxh(const double*in,const double*e,double*h){ for(int i=0;i<3;++i) h[i]=ab(in[3*i])*e[0]+ab(in[3*i+1])*e[1]+ab(in[3*i+2])*e[2]; }
static inline void spo(const double*in,const double*e,double*out){ for(int i=0;i<12;++i) out[i]=in[i]; for(int i=0;i<3;++i) out[12+i]=e[i]; }
static inline void splocal(const double*e,double*out){ double s=0; for(int i=0;i<3;++i){ out[i]=-e[i]; out[3+i]=e[i]; out[6+i]=0; s+=e[i]*e[i]; } out[9]=rt(s); }
// exact support extents of curved shapes (accepted alternatives: a tighter box is still a correct box)
static inline double circ(const double*in,int i,double r){ return r*rt(in[3*i]*in[3*i]+in[3*i+1]*in[3*i+1]); }
#define SHAPE(NAME,CTOR,E0,E1,E2) \
PROBE impl_a##NAME(const double*in,double*out){ const double*q=in+12; (void)q; aabb(CTOR,in,out); } \
PROBE impl_o##NAME(const double*in,double*out){ const double*q=in+12; (void)q; obb(CTOR,in,out); } \
PROBE spec_o##NAME(const double*in,double*out){ const double*q=in+12; double e[3]={E0,E1,E2}; spo(in,e,out); } \
PROBE impl_l##NAME(const double*in,double*out){ const double*q=in; auto s=CTOR; local(s,out); } \
PROBE spec_l##NAME(const double*in,double*out){ const double*q=in; double e[3]={E0,E1,E2}; splocal(e,out); }
#define ABOX(NAME,E0,E1,E2) PROBE spec_a##NAME(const double*in,double*out){ const double*q=in+12; double e[3]={E0,E1,E2},h[3]; boxh(in,e,h); spa(in,h,out); }
//@ abox what="Box world AABB" assume="in[12]>0,in[13]>0,in[14]>0"
//@ obox what="Box world OBB"
//@ lbox what="Box local AABB, centre, radius" assume="in[0]>0,in[1]>0,in[2]>0"
SHAPE(box,Box<double>(q[0],q[1],q[2]),q[0]/2,q[1]/2,q[2]/2)
ABOX(box,q[0]/2,q[1]/2,q[2]/2)
//@ asph what="Sphere world AABB" assume="in[12]>0"
//@ lsph what="Sphere local AABB, centre, radius" assume="in[0]>0" outs=0,1,2,3,4,5,6,7,8
PROBE impl_asph(const double*in,double*out){ aabb(Sphere<double>(in[12]),in,out); }
PROBE spec_asph(const double*in,double*out){ double h[3]={in[12],in[12],in[12]}; spa(in,h,out); }
PROBE impl_lsph(const double*in,double*out){ Sphere<double> s(in[0]); local(s,out); }
PROBE spec_lsph(const double*in,double*out){ double e[3]={in[0],in[0],in[0]}; splocal(e,out); out[9]=in[0]; }
//@ osph what="Sphere world OBB (cube of the diameter around the centre; any axes do)"
PROBE impl_osph(const double*in,double*out){ OB b; computeBV(Sphere<double>(in[12]),gt(in),b); pv(out,b.To); pv(out+3,b.extent); }
PROBE spec_osph(const double*in,double*out){ for(int i=0;i<3;++i){ out[i]=in[9+i]; out[3+i]=in[12]; } }
//@ aell what="Ellipsoid world AABB" assume="in[12]>0,in[13]>0,in[14]>0"
//@ oell what="Ellipsoid world OBB"
//@ lell what="Ellipsoid local AABB, centre, radius" assume="in[0]>0,in[1]>0,in[2]>0"
SHAPE(ell,Ellipsoid<double>(q[0],q[1],q[2]),q[0],q[1],q[2])
ABOX(ell,q[0],q[1],q[2])
PROBE alt_aell(const double*in,double*out){ double h[3]; for(int i=0;i<3;++i) h[i]=rt(sq(in[3*i]*in[12])+sq(in[3*i+1]*in[13])+sq(in[3*i+2]*in[14])); spa(in,h,out); }
//@ acap what="Capsule world AABB" assume="in[12]>0,in[13]>0"
//@ ocap what="Capsule world OBB"
//@ lcap what="Capsule local AABB, centre, radius" assume="in[0]>0,in[1]>0"
SHAPE(cap,Capsule<double>(q[0],q[1]),q[0],q[0],q[1]/2+q[0])
PROBE spec_acap(const double*in,double*out){ double h[3]; for(int i=0;i<3;++i) h[i]=in[13]/2*ab(in[3*i+2])+in[12]; spa(in,h,out); }
//@ acyl what="Cylinder world AABB" assume="in[12]>0,in[13]>0"
//@ ocyl what="Cylinder world OBB"
//@ lcyl what="Cylinder local AABB, centre, radius" assume="in[0]>0,in[1]>0"
SHAPE(cyl,Cylinder<double>(q[0],q[1]),q[0],q[0],q[1]/2)
ABOX(cyl,q[0],q[0],q[1]/2)
PROBE alt_acyl(const double*in,double*out){ double h[3]; for(int i=0;i<3;++i) h[i]=circ(in,i,in[12])+ab(in[3*i+2])*in[13]/2; spa(in,h,out); }
//@ acon what="Cone world AABB" assume="in[12]>0,in[13]>0"
//@ ocon what="Cone world OBB"
//@ lcon what="Cone local AABB, centre, radius" assume="in[0]>0,in[1]>0"
SHAPE(con,Cone<double>(q[0],q[1]),q[0],q[0],q[1]/2)
ABOX(con,q[0],q[0],q[1]/2)
PROBE alt_acon(const double*in,double*out){ for(int i=0;i<3;++i){ double b=circ(in,i,in[12]),z=in[3*i+2]*in[13]/2; out[i]=in[9+i]+mn(z,-z-b); out[3+i]=in[9+i]+mx(z,-z+b); } }
// triangle: exact
//@ atri what="TriangleP world AABB"
PROBE impl_atri(const double*in,double*out){ aabb(TriangleP<double>(gv(in+12),gv(in+15),gv(in+18)),in,out); }
static inline void tribox(const double*in,double*out){ double a[3],b[3],c[3]; app(in,in+12,a); app(in,in+15,b); app(in,in+18,c); for(int i=0;i<3;++i){ out[i]=mn(mn(a[i],b[i]),c[i]); out[3+i]=mx(mx(a[i],b[i]),c[i]); } }
PROBE spec_atri(const double*in,double*out){ tribox(in,out); }
//@ ltri what="TriangleP local AABB, centre, radius"
PROBE impl_ltri(const double*in,double*out){ TriangleP<double> s(gv(in),gv(in+3),gv(in+6)); local(s,out); out[9]=0; }
PROBE spec_ltri(const double*in,double*out){ for(int i=0;i<3;++i){ out[i]=mn(mn(in[i],in[3+i]),in[6+i]); out[3+i]=mx(mx(in[i],in[3+i]),in[6+i]); out[6+i]=(out[i]+out[3+i])/2; } out[9]=0; }
// convex polyhedron over three vertices (any list is handled vertex by vertex)
struct VecRep { const void*b,*e,*c; };
static inline void cvset(char*buf,const VecRep*v){ Convex<double>&m=*(Convex<double>*)buf; new((void*)&m.vertices_) std::shared_ptr<const std::vector<V3>>(std::shared_ptr<void>(),(const std::vector<V3>*)v); }
#define CONVEX(P,N) VecRep vr={P,P+3*N,P+3*N}; alignas(Convex<double>) char buf[sizeof(Convex<double>)]; Convex<double>&m=*(Convex<double>*)buf; cvset(buf,&vr);
//@ acvx what="Convex world AABB"
PROBE impl_acvx(const double*in,double*out){ CONVEX((in+12),3) aabb(m,in,out); }
PROBE spec_acvx(const double*in,double*out){ tribox(in,out); }
//@ ocvx what="Convex world OBB contains the posed vertices (single and two vertex fits)" 
PROBE impl_ocvx(const double*in,double*out){ CONVEX((in+12),1) OB b; computeBV(m,gt(in),b); pv(out,b.To); pv(out+3,b.extent); }
PROBE spec_ocvx(const double*in,double*out){ app(in,in+12,out); out[3]=out[4]=out[5]=0; }
//@ ocvx2 ties=ignore what="Convex world OBB: first axis follows the rotated edge of a two-vertex solid"
PROBE impl_ocvx2(const double*in,double*out){ CONVEX((in+12),2) OB b; computeBV(m,gt(in),b); pv(out,b.To); out[3]=b.extent[0]; out[4]=b.extent[1]; out[5]=b.extent[2]; for(int i=0;i<3;++i) out[6+i]=b.axis(i,0)*b.extent[0]; }
PROBE spec_ocvx2(const double*in,double*out){ double c[3],d[3],l=0,w[3]; for(int i=0;i<3;++i){ c[i]=(in[12+i]+in[15+i])/2; d[i]=(in[12+i]-in[15+i])/2; l+=d[i]*d[i]; } app(in,c,out); out[3]=rt(l); out[4]=out[5]=0; rot(in,d,w); for(int i=0;i<3;++i) out[6+i]=w[i]; }
// ---- bounding vertices: convex hulls that contain the solid; compared as sets
template<class G> static inline void verts(const G&s,const double*in,double*out){ std::vector<V3> v=s.G::getBoundVertices(gt(in)); for(size_t i=0;i<v.size();++i) pv(out+3*i,v[i]); }
static inline void pt(const double*in,double*o,double x,double y,double z){ double v[3]={x,y,z}; app(in,v,o); }
//@ vbox what="Box bounding vertices" group=3
PROBE impl_vbox(const double*in,double*out){ verts(Box<double>(in[12],in[13],in[14]),in,out); }
PROBE spec_vbox(const double*in,double*out){ for(int k=0;k<8;++k) pt(in,out+3*k,(k&1?1:-1)*in[12]/2,(k&2?1:-1)*in[13]/2,(k&4?1:-1)*in[14]/2); }
static inline void ico(const double*in,double*o,double A,double B,double C,double dz){ const double f=(1+std::sqrt(5.0))/2, a=std::sqrt(3.0)/(f*f), b=f*a; for(int k=0;k<4;++k){ double s=k&1?1:-1,t=k&2?1:-1; pt(in,o+9*k,0,s*a*B,t*b*C+dz); pt(in,o+9*k+3,s*a*A,t*b*B,dz); pt(in,o+9*k+6,t*b*A,0,s*a*C+dz); } }
//@ vsph what="Sphere bounding vertices (circumscribed icosahedron)" group=3
PROBE impl_vsph(const double*in,double*out){ verts(Sphere<double>(in[12]),in,out); }
PROBE spec_vsph(const double*in,double*out){ ico(in,out,in[12],in[12],in[12],0); }
//@ vell what="Ellipsoid bounding vertices (scaled icosahedron)" group=3
PROBE impl_vell(const double*in,double*out){ verts(Ellipsoid<double>(in[12],in[13],in[14]),in,out); }
PROBE spec_vell(const double*in,double*out){ ico(in,out,in[12],in[13],in[14],0); }
static inline void hex(const double*in,double*o,double r,double z){ double R=2*r/std::sqrt(3.0); pt(in,o,R,0,z); pt(in,o+3,-R,0,z); for(int k=0;k<4;++k) pt(in,o+6+3*k,(k&1?1:-1)*R/2,(k&2?1:-1)*r,z); }
//@ vcyl what="Cylinder bounding vertices (circumscribed hexagonal prism)" group=3
PROBE impl_vcyl(const double*in,double*out){ verts(Cylinder<double>(in[12],in[13]),in,out); }
PROBE spec_vcyl(const double*in,double*out){ hex(in,out,in[12],in[13]/2); hex(in,out+18,in[12],-in[13]/2); }
//@ vcon what="Cone bounding vertices (circumscribed hexagonal pyramid)" group=3
PROBE impl_vcon(const double*in,double*out){ verts(Cone<double>(in[12],in[13]),in,out); }
PROBE spec_vcon(const double*in,double*out){ hex(in,out,in[12],-in[13]/2); pt(in,out+18,0,0,in[13]/2); }
//@ vcap what="Capsule bounding vertices (two icosahedra and a prism)" group=3
PROBE impl_vcap(const double*in,double*out){ verts(Capsule<double>(in[12],in[13]),in,out); }
PROBE spec_vcap(const double*in,double*out){ double r=in[12],h=in[13]/2; ico(in,out,r,r,r,h); ico(in,out+36,r,r,r,-h); hex(in,out+72,r,h); hex(in,out+90,r,-h); }
//@ vtri what="TriangleP bounding vertices" group=3
PROBE impl_vtri(const double*in,double*out){ verts(TriangleP<double>(gv(in+12),gv(in+15),gv(in+18)),in,out); }
PROBE spec_vtri(const double*in,double*out){ for(int k=0;k<3;++k) app(in,in+12+3*k,out+3*k); }
// ---- every other volume is fitted to the bounding vertices of the posed shape
//@ ktri what="computeBV<KDOP16/18/24>(shape) is the fit of the bounding vertices"
static const double DIR[12][3]={{1,0,0},{0,1,0},{0,0,1},{1,1,0},{1,0,1},{0,1,1},{1,-1,0},{1,0,-1},{0,1,-1},{1,1,-1},{1,-1,1},{-1,1,1}};
static const int CNT[12]={1,1,1,2,2,2,2,2,2,3,3,3};
template<int N> static inline void sphk(const double*in,double*out){ double v[9]; for(int k=0;k<3;++k) app(in,in+12+3*k,v+3*k); for(int i=0;i<N/2;++i){ double d[3]; for(int k=0;k<3;++k) d[k]=DIR[i][0]*v[3*k]+DIR[i][1]*v[3*k+1]+DIR[i][2]*v[3*k+2]; out[i]=mn(mn(d[0],d[1]),d[2]); out[N/2+i]=mx(mx(d[0],d[1]),d[2]); } }
template<int N> static inline void imphk(const double*in,double*out){ KDOP<double,N> k; computeBV(TriangleP<double>(gv(in+12),gv(in+15),gv(in+18)),gt(in),k); for(int i=0;i<N;++i) out[i]=k.dist(i); }
PROBE impl_ktri(const double*in,double*out){ imphk<24>(in,out); }
PROBE spec_ktri(const double*in,double*out){ sphk<24>(in,out); }
// ---- half-spaces and planes. in[0]=1/sqrt2, in[1]=1/sqrt3, in[2]=offset d, in[3..5]=translation
#define LETC let="in[0]=sqrt(1/2),in[1]=sqrt(1/3)"
static inline double unit(const double*in,int i){ return CNT[i]==1?1.0:CNT[i]==2?in[0]:in[1]; }
static inline T3 tr(const double*in){ T3 t; t.setIdentity(); t.translation()=gv(in+3); return t; }
template<class S> static inline S mkp(double x,double y,double z,double d){ S s; s.n=V3(x,y,z); s.d=d; return s; }
template<int N,class S> static inline void alk(const double*in,double*out){ int o=0; for(int i=0;i<12;++i) for(int s=-1;s<=1;s+=2){ double c=s*unit(in,i); KDOP<double,N> k; computeBV(mkp<S>(c*DIR[i][0],c*DIR[i][1],c*DIR[i][2],in[2]),tr(in),k); for(int j=0;j<N;++j) out[o++]=k.dist(j); } }
template<int N,bool PL> static inline void alks(const double*in,double*out){ int o=0; for(int i=0;i<12;++i) for(int s=-1;s<=1;s+=2){ double c=s*unit(in,i); 
  for(int j=0;j<N/2;++j){ out[o+j]=-BIG; out[o+N/2+j]=BIG; }
  if(i<N/2){ double b=in[2]/c+DIR[i][0]*in[3]+DIR[i][1]*in[4]+DIR[i][2]*in[5]; if(PL||s>0) out[o+N/2+i]=b; if(PL||s<0) out[o+i]=b; }
  o+=N; } }
template<int N,class S> static inline void gek(const double*in,double*out){ KDOP<double,N> k; S s; s.n=gv(in+12); s.d=in[15]; computeBV(s,gt(in),k); for(int j=0;j<N;++j) out[j]=k.dist(j); }
template<int N> static inline void geks(double*out){ for(int j=0;j<N/2;++j){ out[j]=-BIG; out[N/2+j]=BIG; } }
#define HP(N) \
PROBE impl_hk##N(const double*in,double*out){ alk<N,Halfspace<double>>(in,out); } PROBE spec_hk##N(const double*in,double*out){ alks<N,false>(in,out); } \
PROBE impl_pk##N(const double*in,double*out){ alk<N,Plane<double>>(in,out); } PROBE spec_pk##N(const double*in,double*out){ alks<N,true>(in,out); } \
PROBE impl_gh##N(const double*in,double*out){ gek<N,Halfspace<double>>(in,out); } PROBE spec_gh##N(const double*in,double*out){ geks<N>(out); } \
PROBE impl_gp##N(const double*in,double*out){ gek<N,Plane<double>>(in,out); } PROBE spec_gp##N(const double*in,double*out){ geks<N>(out); }
//@ hk16 what="k-DOP(16) of half-spaces aligned with a slab" let="in[0]=sqrt(1/2),in[1]=sqrt(1/3)"
//@ hk18 what="k-DOP(18) of half-spaces aligned with a slab" let="in[0]=sqrt(1/2),in[1]=sqrt(1/3)"
//@ hk24 what="k-DOP(24) of half-spaces aligned with a slab" let="in[0]=sqrt(1/2),in[1]=sqrt(1/3)"
//@ pk16 what="k-DOP(16) of planes aligned with a slab" let="in[0]=sqrt(1/2),in[1]=sqrt(1/3)"
//@ pk18 what="k-DOP(18) of planes aligned with a slab" let="in[0]=sqrt(1/2),in[1]=sqrt(1/3)"
//@ pk24 what="k-DOP(24) of planes aligned with a slab" let="in[0]=sqrt(1/2),in[1]=sqrt(1/3)"
//@ gh16 what="k-DOP(16) of a half-space in general position is unbounded" ties=ignore
//@ gh18 what="k-DOP(18) of a half-space in general position is unbounded" ties=ignore
//@ gh24 what="k-DOP(24) of a half-space in general position is unbounded" ties=ignore
//@ gp16 what="k-DOP(16) of a plane in general position is unbounded" ties=ignore
//@ gp18 what="k-DOP(18) of a plane in general position is unbounded" ties=ignore
//@ gp24 what="k-DOP(24) of a plane in general position is unbounded" ties=ignore
HP(16)
HP(18)
HP(24)
template<class S> static inline void ala(const double*in,double*out){ int o=0; for(int i=0;i<12;++i) for(int s=-1;s<=1;s+=2){ double c=s*unit(in,i); AA k; computeBV(mkp<S>(c*DIR[i][0],c*DIR[i][1],c*DIR[i][2],in[2]),tr(in),k); pa(out+o,k); o+=6; } }
template<bool PL> static inline void alas(const double*in,double*out){ int o=0; for(int i=0;i<12;++i) for(int s=-1;s<=1;s+=2){ for(int j=0;j<3;++j){ out[o+j]=-BIG; out[o+3+j]=BIG; }
  if(i<3){ double b=in[2]*s+in[3+i]; if(PL||s>0) out[o+3+i]=b; if(PL||s<0) out[o+i]=b; } o+=6; } }
//@ hab what="AABB of half-spaces aligned with an axis; unbounded otherwise" let="in[0]=sqrt(1/2),in[1]=sqrt(1/3)"
//@ pab what="AABB of planes aligned with an axis; unbounded otherwise" let="in[0]=sqrt(1/2),in[1]=sqrt(1/3)"
PROBE impl_hab(const double*in,double*out){ ala<Halfspace<double>>(in,out); } PROBE spec_hab(const double*in,double*out){ alas<false>(in,out); }
PROBE impl_pab(const double*in,double*out){ ala<Plane<double>>(in,out); } PROBE spec_pab(const double*in,double*out){ alas<true>(in,out); }
