#include "probe.h"
#include "fcl/math/bv/AABB.h"
using namespace fcl;
typedef AABB<double> BB;
static inline BB mk(const double* p){ BB b; b.min_=gv(p); b.max_=gv(p+3); return b; }
static inline void put(double*o,const BB&b){ pv(o,b.min_); pv(o+3,b.max_); }
//@ overlap what="AABB::overlap(other)"
PROBE impl_overlap(const double*in,double*out){ out[0]=mk(in).overlap(mk(in+6)); }
PROBE spec_overlap(const double*in,double*out){ bool r=true; for(int i=0;i<3;++i){ if(in[i]>in[9+i]) r=false; if(in[6+i]>in[3+i]) r=false;} out[0]=r; }
//@ overlap2 what="AABB::overlap(other, part)"
PROBE impl_overlap2(const double*in,double*out){ BB p; bool r=mk(in).overlap(mk(in+6),p); out[0]=r; if(r) put(out+1,p); else for(int i=1;i<7;++i) out[i]=0; }
PROBE spec_overlap2(const double*in,double*out){ bool r=true; for(int i=0;i<3;++i){ if(in[i]>in[9+i]) r=false; if(in[6+i]>in[3+i]) r=false;} out[0]=r;
  for(int i=0;i<3;++i){ out[1+i]= r? mx(in[i],in[6+i]):0; out[4+i]= r? mn(in[3+i],in[9+i]):0; } }
//@ axis what="AABB::axisOverlap"
PROBE impl_axis(const double*in,double*out){ for(int a=0;a<3;++a) out[a]=mk(in).axisOverlap(mk(in+6),a); }
PROBE spec_axis(const double*in,double*out){ for(int i=0;i<3;++i) out[i]= !(in[i]>in[9+i]) && !(in[6+i]>in[3+i]); }
//@ contain what="AABB::contain(box)"
PROBE impl_contain(const double*in,double*out){ out[0]=mk(in).contain(mk(in+6)); }
PROBE spec_contain(const double*in,double*out){ bool r=true; for(int i=0;i<3;++i){ if(in[6+i]<in[i]) r=false; if(in[9+i]>in[3+i]) r=false;} out[0]=r; }
//@ containp what="AABB::contain(point)"
PROBE impl_containp(const double*in,double*out){ out[0]=mk(in).contain(gv(in+6)); }
PROBE spec_containp(const double*in,double*out){ bool r=true; for(int i=0;i<3;++i){ if(in[6+i]<in[i]) r=false; if(in[6+i]>in[3+i]) r=false;} out[0]=r; }
//@ addp what="AABB += point"
PROBE impl_addp(const double*in,double*out){ BB a=mk(in); a+=gv(in+6); put(out,a); }
PROBE spec_addp(const double*in,double*out){ for(int i=0;i<3;++i){ out[i]=mn(in[i],in[6+i]); out[3+i]=mx(in[3+i],in[6+i]); } }
//@ merge what="AABB += AABB"
PROBE impl_merge(const double*in,double*out){ BB a=mk(in); a+=mk(in+6); put(out,a); }
PROBE spec_merge(const double*in,double*out){ for(int i=0;i<3;++i){ out[i]=mn(in[i],in[6+i]); out[3+i]=mx(in[3+i],in[9+i]); } }
//@ plus what="AABB + AABB"
PROBE impl_plus(const double*in,double*out){ put(out,mk(in)+mk(in+6)); }
PROBE spec_plus(const double*in,double*out){ for(int i=0;i<3;++i){ out[i]=mn(in[i],in[6+i]); out[3+i]=mx(in[3+i],in[9+i]); } }
//@ ctors what="AABB constructors from points"
PROBE impl_ctors(const double*in,double*out){ put(out,BB(gv(in))); put(out+6,BB(gv(in),gv(in+3))); put(out+12,BB(gv(in),gv(in+3),gv(in+6))); }
PROBE spec_ctors(const double*in,double*out){ for(int i=0;i<3;++i){ out[i]=out[3+i]=in[i]; out[6+i]=mn(in[i],in[3+i]); out[9+i]=mx(in[i],in[3+i]); out[12+i]=mn(mn(in[i],in[3+i]),in[6+i]); out[15+i]=mx(mx(in[i],in[3+i]),in[6+i]); } }
//@ ctord what="AABB constructor growing a box"
PROBE impl_ctord(const double*in,double*out){ put(out,BB(mk(in),gv(in+6))); BB b=mk(in); b.expand(gv(in+6)); put(out+6,b); }
PROBE spec_ctord(const double*in,double*out){ for(int k=0;k<12;k+=6) for(int i=0;i<3;++i){ out[k+i]=in[i]-in[6+i]; out[k+3+i]=in[3+i]+in[6+i]; } }
//@ empty what="default-constructed AABB is the neutral element of the union"
PROBE impl_empty(const double*in,double*out){ BB b; b+=mk(in); put(out,b); BB c; c+=gv(in); put(out+6,c); }
PROBE spec_empty(const double*in,double*out){ for(int i=0;i<6;++i) out[i]=in[i]; for(int i=0;i<3;++i){ out[6+i]=out[9+i]=in[i]; } }
//@ dist what="AABB::distance" assume="in[3]-in[0]>=0,in[4]-in[1]>=0,in[5]-in[2]>=0,in[9]-in[6]>=0,in[10]-in[7]>=0,in[11]-in[8]>=0"
PROBE impl_dist(const double*in,double*out){ out[0]=mk(in).distance(mk(in+6)); }
PROBE spec_dist(const double*in,double*out){ double s=0; for(int i=0;i<3;++i){ double g=0; if(in[6+i]>in[3+i]) g=in[6+i]-in[3+i]; else if(in[i]>in[9+i]) g=in[i]-in[9+i]; s+=g*g;} out[0]=rt(s); }
//@ distp what="AABB::distance with nearest points" assume="in[3]-in[0]>=0,in[4]-in[1]>=0,in[5]-in[2]>=0,in[9]-in[6]>=0,in[10]-in[7]>=0,in[11]-in[8]>=0"
PROBE impl_distp(const double*in,double*out){ V3 p,q; out[0]=mk(in).distance(mk(in+6),&p,&q); pv(out+1,p); pv(out+4,q); }
PROBE spec_distp(const double*in,double*out){ double s=0; for(int i=0;i<3;++i){ double g=0; double P,Q; if(in[6+i]>in[3+i]) {g=in[6+i]-in[3+i];P=in[3+i];Q=in[6+i];} else if(in[i]>in[9+i]) {g=in[i]-in[9+i];P=in[i];Q=in[9+i];} else {P=Q= (mx(in[i],in[6+i])+mn(in[3+i],in[9+i]))/2;} s+=g*g; out[1+i]=P; out[4+i]=Q;} out[0]=rt(s); }
//@ distnull what="AABB::distance with null outputs" assume="in[3]-in[0]>=0,in[4]-in[1]>=0,in[5]-in[2]>=0,in[9]-in[6]>=0,in[10]-in[7]>=0,in[11]-in[8]>=0"
PROBE impl_distnull(const double*in,double*out){ out[0]=mk(in).distance(mk(in+6),nullptr,nullptr); }
PROBE spec_distnull(const double*in,double*out){ spec_dist(in,out); }
//@ meas what="AABB extents, volume, size, radius, centre"
PROBE impl_meas(const double*in,double*out){ BB b=mk(in); out[0]=b.volume(); out[1]=b.radius(); out[2]=b.size(); out[3]=b.width(); out[4]=b.height(); out[5]=b.depth(); pv(out+6,b.center()); }
PROBE spec_meas(const double*in,double*out){ double x=in[3]-in[0],y=in[4]-in[1],z=in[5]-in[2]; out[0]=x*y*z; out[1]=rt(x*x+y*y+z*z)/2; out[2]=x*x+y*y+z*z; out[3]=x;out[4]=y;out[5]=z; for(int i=0;i<3;++i) out[6+i]=(in[i]+in[3+i])/2; }
//@ trans what="translate(AABB, t)"
PROBE impl_trans(const double*in,double*out){ put(out,translate(mk(in),gv(in+6))); }
PROBE spec_trans(const double*in,double*out){ for(int i=0;i<3;++i){ out[i]=in[i]+in[6+i]; out[3+i]=in[3+i]+in[6+i]; } }
