// C10: shapes against half-spaces and planes.  Never executed; analysed as IR.
// FAM=0: arbitrary poses; the world half-space/plane is an opaque function of the local one and its pose
//        (transform itself: c10_transform.cpp).   FAM>=1: concrete rational rotations, everything else arbitrary
//        (used when a routine is written with identities that only hold for unit normals).
#include "probe.h"
#include "fcl/geometry/shape/halfspace.h"
#include "fcl/geometry/shape/plane.h"
#ifndef FAM
#define FAM 0
#endif
using namespace fcl;
extern "C" { double evp_out(double,int); double evp_hs(const double*); double evp_pl(const double*); }
static inline void putT(double*o,const T3&t){ pm(o,t.linear()); pv(o+9,t.translation()); }
#if FAM==0
namespace fcl {
template<> inline Halfspace<double> transform(const Halfspace<double>&a,const T3&t){ double x[16]; pv(x,a.n); x[3]=a.d; putT(x+4,t); double h=evp_hs(x); Halfspace<double> r; r.n=V3(evp_out(h,0),evp_out(h,1),evp_out(h,2)); r.d=evp_out(h,3); return r; }
template<> inline Plane<double> transform(const Plane<double>&a,const T3&t){ double x[16]; pv(x,a.n); x[3]=a.d; putT(x+4,t); double h=evp_pl(x); Plane<double> r; r.n=V3(evp_out(h,0),evp_out(h,1),evp_out(h,2)); r.d=evp_out(h,3); return r; }
}
#endif
#include "narrowphase/detail/primitive_shape_algorithm/halfspace.cpp"
#include "narrowphase/detail/primitive_shape_algorithm/plane.cpp"
#include "fcl/narrowphase/detail/gjk_solver_indep.h"
#include "fcl/narrowphase/detail/gjk_solver_libccd.h"
using namespace fcl::detail;
typedef ContactPoint<double> CP; typedef Halfspace<double> HS; typedef Plane<double> PL;
// inputs: 0 pose of the shape (12), 12 pose of the half-space (12), 24 n(3) d, 28.. sizes, 32.. points
#if FAM==0
#define POSE T3 t1=gt(in),t2=gt(in+12); V3 hn=gv(in+24)
#else
static const double RR[6][9]={{2/7.,3/7.,6/7.,3/7.,-6/7.,2/7.,6/7.,2/7.,-3/7.},{1,0,0,0,1,0,0,0,1},{1,0,0,0,-1,0,0,0,-1},{0,0,1,1,0,0,0,1,0},{1,0,0,0,.6,-.8,0,.8,.6},{.6,0,-.8,0,-1,0,-.8,0,-.6}};
static const double NN[6][3]={{1,0,0},{0,0,1},{0,.6,.8},{0,.8,-.6},{-.6,0,-.8},{2/7.,-3/7.,6/7.}};
static inline M3 rm(int k){ return gm(RR[k]); }
#define POSE T3 t1,t2; t1.setIdentity(); t2.setIdentity(); t1.linear()=rm((FAM-1)%6); t1.translation()=gv(in+9); t2.linear()=rm((FAM-1)/2%6); t2.translation()=gv(in+21); V3 hn=gv(NN[(FAM+1)%6])
#endif
#define HSP HS h; h.n=hn; h.d=in[27]
#define PLP PL h; h.n=hn; h.d=in[27]
// contact buffer with one free slot
struct Buf { CP*b,*e,*c; alignas(16) char s[2*sizeof(CP)]; Buf(){ b=e=(CP*)s; c=b+2; double*d=(double*)s; for(unsigned i=0;i<2*sizeof(CP)/8;++i) d[i]=0; } std::vector<CP>*v(){ return (std::vector<CP>*)this; }
  template<bool NOPOS=false> void put(double*o){ ((long*)o)[0]=e-b; CP&p=*(CP*)s; pv(o+1,p.normal); if(!NOPOS) pv(o+4,p.pos); o[7]=p.penetration_depth; } };
template<bool NP=false,class A,class B> static inline void goI(const A&a,const T3&ta,const B&b,const T3&tb,double*out){ alignas(16) char m[sizeof(GJKSolver_indep<double>)]; const GJKSolver_indep<double>&s=*(GJKSolver_indep<double>*)m; Buf f; out[0]=s.shapeIntersect(a,ta,b,tb,f.v()); out[1]=s.shapeIntersect(a,ta,b,tb,nullptr); f.put<NP>(out+2); }
template<bool NP=false,class A,class B> static inline void goL(const A&a,const T3&ta,const B&b,const T3&tb,double*out){ alignas(16) char m[sizeof(GJKSolver_libccd<double>)]; const GJKSolver_libccd<double>&s=*(GJKSolver_libccd<double>*)m; Buf f; out[0]=s.shapeIntersect(a,ta,b,tb,f.v()); out[1]=s.shapeIntersect(a,ta,b,tb,nullptr); f.put<NP>(out+2); }
template<bool NP=false,class A,class B> static inline void all(const A&a,const T3&ta,const B&b,const T3&tb,double*out){ goI<NP>(a,ta,b,tb,out); goI<NP>(b,tb,a,ta,out+10); goL<NP>(a,ta,b,tb,out+20); goL<NP>(b,tb,a,ta,out+30); }
template<bool NP=false> static inline void rep(double*out,bool hit,const V3&n,const V3&p,double d){ for(int k=0;k<4;++k){ double*o=out+10*k,s=k&1?-1:1; o[0]=o[1]=hit; ((long*)o)[2]=hit?1:0; for(int i=0;i<3;++i){ o[3+i]=hit?s*n[i]:0; if(!NP) o[6+i]=hit?p[i]:0; } o[9]=hit?d:0; } }
static inline double ip(const V3&a,const V3&b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
template<class W> static inline double sdist(const W&w,const V3&p){ return ip(w.n,p)-w.d; }
static inline T3 rel(const T3&a,const T3&b){ T3 x; x.setIdentity(); for(int i=0;i<3;++i){ for(int j=0;j<3;++j){ double s=0; for(int k=0;k<3;++k) s+=a.linear()(k,i)*b.linear()(k,j); x.linear()(i,j)=s; } double s=0; for(int k=0;k<3;++k) s+=a.linear()(k,i)*(b.translation()[k]-a.translation()[k]); x.translation()[i]=s; } return x; }
static inline V3 vec(double x,double y,double z){ return V3(x,y,z); }
#define TOL 1e-7
#define AS assume="in[28]>0,in[29]>0,in[30]>0"
// ---- sphere
#define SPH Sphere<double> s(in[28])
//@ sphere_hs what="sphere against half-space (both solvers, both orders)" events=none assume="in[28]>0"
PROBE impl_sphere_hs(const double*in,double*out){ POSE; HSP; SPH; all(s,t1,h,t2,out); }
PROBE spec_sphere_hs(const double*in,double*out){ POSE; HSP; HS w=transform(h,t2); V3 c=t1.translation(); double d=in[28]-sdist(w,c); rep(out,d>=0,-w.n,c-w.n*(in[28]-d/2),d); }
//@ sphere_pl what="sphere against plane (both solvers, both orders)" events=none assume="in[28]>0"
PROBE impl_sphere_pl(const double*in,double*out){ POSE; PLP; SPH; all(s,t1,h,t2,out); }
PROBE spec_sphere_pl(const double*in,double*out){ POSE; PLP; PL w=transform(h,t2); V3 c=t1.translation(); double q=sdist(w,c),d=in[28]-ab(q); rep(out,d>=0,q>0?-1*w.n:1*w.n,c-w.n*q,d); }
// ---- ellipsoid
#define ELL Ellipsoid<double> s(in[28],in[29],in[30])
//@ ell_hs what="ellipsoid against half-space (both solvers, both orders)" events=none assume="in[28]>0,in[29]>0,in[30]>0"
PROBE impl_ell_hs(const double*in,double*out){ POSE; HSP; ELL; all(s,t1,h,t2,out); }
template<class W> static inline double esup(const W&w,const double*r,V3&u){ double q=0; for(int i=0;i<3;++i) q+=sq(w.n[i])*sq(r[i]); q=rt(q); for(int i=0;i<3;++i) u[i]=sq(r[i])*w.n[i]/q; return q; }
PROBE spec_ell_hs(const double*in,double*out){ POSE; HSP; HS w=transform(h,rel(t1,t2)); V3 u; double c=esup(w,in+28,u),d=c+w.d; V3 n=t1.linear()*w.n; V3 p=u*(0.5*d/ip(w.n,u)-1); V3 q=t1.linear()*p+t1.translation(); rep(out,d>=0,-n,q,d); }
//@ ell_pl what="ellipsoid against plane (both solvers, both orders)" events=none assume="in[28]>0,in[29]>0,in[30]>0"
PROBE impl_ell_pl(const double*in,double*out){ POSE; PLP; ELL; all(s,t1,h,t2,out); }
PROBE spec_ell_pl(const double*in,double*out){ POSE; PLP; PL w=transform(h,rel(t1,t2)); V3 u; double c=esup(w,in+28,u),q=-w.d,d=c-ab(q); V3 n=t1.linear()*w.n; V3 p=u*(d/ip(w.n,u)-1); if(!(q>0)){ p=-p; } else n=-n; V3 x=t1.linear()*p+t1.translation(); rep(out,d>=0,n,x,d); }
// ---- box
#define BOX Box<double> s(in[28],in[29],in[30])
template<class W> static inline double bsup(const W&w,const M3&R,const double*l){ double q=0; for(int i=0;i<3;++i) q+=ab(ip(V3(R.col(i)),w.n))*l[i]/2; return q; }
// the extreme corner (or face centre when the normal is along an axis of the box) against the normal
template<class W> static inline V3 bcorner(const W&w,const T3&t,const double*l,double tol){ V3 p=t.translation(); double q[3]; V3 a[3]; for(int i=0;i<3;++i){ a[i]=t.linear().col(i); q[i]=ip(a[i],w.n); } int k=-1; for(int i=2;i>=0;--i) if(ab(q[i]-1)<tol||ab(q[i]+1)<tol) k=i; V3 r=V3::Zero(); for(int i=0;i<3;++i) if(k<0||k==i) r+=a[i]*(l[i]/2*(q[i]*l[i]>0?-1:1)); return r; }
//@ box_hs what="box against half-space (both solvers, both orders)" events=none assume="in[28]>0,in[29]>0,in[30]>0"
PROBE impl_box_hs(const double*in,double*out){ POSE; HSP; BOX; all(s,t1,h,t2,out); }
PROBE spec_box_hs(const double*in,double*out){ POSE; HSP; HS w=transform(h,t2); double d=bsup(w,t1.linear(),in+28)-sdist(w,t1.translation()); V3 p=t1.translation()+bcorner(w,t1,in+28,TOL); rep(out,d>=0,-w.n,p+w.n*(d/2),d); }
//@ box_pl what="box against plane (both solvers, both orders)" events=none assume="in[28]>0,in[29]>0,in[30]>0"
PROBE impl_box_pl(const double*in,double*out){ POSE; PLP; BOX; all(s,t1,h,t2,out); }
PROBE spec_box_pl(const double*in,double*out){ POSE; PLP; PL w=transform(h,t2); double q=sdist(w,t1.translation()),d=bsup(w,t1.linear(),in+28)-ab(q); V3 k=bcorner(w,t1,in+28,TOL); V3 p=t1.translation(); if(q>0) p+=k; else p-=k; rep(out,d>=0,q>0?-1*w.n:1*w.n,p-w.n*sdist(w,p),d); }
// ---- capsule
#define CAP Capsule<double> s(in[28],in[29])
#define AXIS V3 z=t1.linear().col(2),T=t1.translation(); double ca=ip(z,w.n),r=in[28],hl=in[29]/2
//@ cap_hs what="capsule against half-space (both solvers, both orders)" events=none assume="in[28]>0,in[29]>0"
PROBE impl_cap_hs(const double*in,double*out){ POSE; HSP; CAP; all(s,t1,h,t2,out); }
PROBE spec_cap_hs(const double*in,double*out){ POSE; HSP; HS w=transform(h,t2); AXIS; V3 p=T; if(!(ab(ca)<TOL)){ if(ca>0) p-=z*hl; else p+=z*hl; } double d=r-sdist(w,p); rep(out,d>=0,-w.n,p-w.n*(r-d/2),d); }
//@ cap_pl what="capsule against plane (both solvers, both orders)" events=none assume="in[28]>0,in[29]>0"
PROBE impl_cap_pl(const double*in,double*out){ POSE; PLP; CAP; all(s,t1,h,t2,out); }
PROBE spec_cap_pl(const double*in,double*out){ POSE; PLP; PL w=transform(h,t2); AXIS; V3 a=T+z*hl,b=T-z*hl; double p=sdist(w,a),q=sdist(w,b),ap=ab(p),aq=ab(q); V3 n=w.n,c; double d; bool hit;
  if(p*q<0){ hit=true; bool first=ap<aq; d=r+(first?ap:aq); if((first?p:q)<0) n=-n; c=a*(aq/(ap+aq))+b*(ap/(ap+aq)); }
  else { hit=ap<=r||aq<=r; d=r-(aq<ap?aq:ap); if(!(p<0)) n=-n; V3 ca=a-w.n*p, cb=b-w.n*q; c=ap<=r?(aq<=r?V3((ca+cb)*0.5):ca):cb; }
  rep(out,hit,n,c,d); bool h2=p*q<=0||ap<=r||aq<=r; for(int k=0;k<4;++k) out[10*k+1]=h2; }
// ---- cylinder
#define CYL Cylinder<double> s(in[28],in[29])
template<class W> static inline V3 radial(const W&w,const V3&z,double ca,double r){ V3 c=z*ca-w.n; if(ab(ca+1)<TOL||ab(ca-1)<TOL) return V3(0,0,0); double k=r/rt(ip(c,c)); return c*k; }
//@ cyl_hs what="cylinder against half-space (both solvers, both orders)" events=none assume="in[28]>0,in[29]>0"
PROBE impl_cyl_hs(const double*in,double*out){ POSE; HSP; CYL; all(s,t1,h,t2,out); }
PROBE spec_cyl_hs(const double*in,double*out){ POSE; HSP; HS w=transform(h,t2); AXIS; if(ab(ca)<TOL){ double d=r-sdist(w,T); rep(out,d>=0,-w.n,T-w.n*(r-d/2),d); } else { V3 p=T+radial(w,z,ca,r); if(ca>0) p-=z*hl; else p+=z*hl; double d=-sdist(w,p); rep(out,d>=0,-w.n,p+w.n*(d/2),d); } }
//@ cyl_pl what="cylinder against plane (both solvers, both orders)" events=none assume="in[28]>0,in[29]>0"
PROBE impl_cyl_pl(const double*in,double*out){ POSE; PLP; CYL; all(s,t1,h,t2,out); }
PROBE spec_cyl_pl(const double*in,double*out){ POSE; PLP; PL w=transform(h,t2); AXIS; if(ab(ca)<TOL){ double q=sdist(w,T),d=r-ab(q); rep(out,d>=0,q<0?1*w.n:-1*w.n,T-w.n*q,d); }
  else { V3 C=radial(w,z,ca,r); V3 a=T+z*hl,b=T-z*hl; if(ca>0){ a-=C; b+=C; } else { a+=C; b-=C; } double p=sdist(w,a),q=sdist(w,b); bool hit=p*q<=0; bool second=ab(p)>ab(q); V3 n=w.n; if((second?q:p)<0) n=-n; rep(out,hit,n,second?V3(b-w.n*q):V3(a-w.n*p),second?ab(q):ab(p)); }
  double qx=ip(t1.linear().col(0),w.n),qy=ip(t1.linear().col(1),w.n),e=ab(ca)*hl+r*rt(qx*qx+qy*qy)-ab(sdist(w,T)); for(int k=0;k<4;++k) out[10*k+1]=e>=0; }
// ---- cone (apex up)
#define CON Cone<double> s(in[28],in[29])
//@ cone_hs what="cone against half-space (both solvers, both orders)" events=none assume="in[28]>0,in[29]>0"
PROBE impl_cone_hs(const double*in,double*out){ POSE; HSP; CON; all(s,t1,h,t2,out); }
PROBE spec_cone_hs(const double*in,double*out){ POSE; HSP; HS w=transform(h,t2); AXIS; if(ab(ca)<TOL){ double d=r-sdist(w,T); rep(out,d>=0,-w.n,T-z*hl-w.n*(r-d/2),d); }
  else { V3 a=T+z*hl,b=T-z*hl+radial(w,z,ca,r); double p=sdist(w,a),q=sdist(w,b); V3 x=b; double d=-q; if(p<q){ x=a; d=-p; } rep(out,p<=0||q<=0,-w.n,x+w.n*(d/2),d); } }
// the middle of the cut of the plane with a triangle (a, b, c): two edges leave the vertex that is alone on its side
static inline V3 crossing(const V3&x,double dx,const V3&y,double dy){ return V3((x*dy-y*dx)/(dy-dx)); }
template<bool EQ> static inline void cut3(const V3*v,const double*d,double*neg,double*pos,V3*mid){ bool s[3]; int np=0; *pos=*neg=0; for(int i=0;i<3;++i){ s[i]=EQ?d[i]>=0:d[i]>0; if(s[i]){ ++np; if(*pos<=d[i]) *pos=d[i]; } else if(*neg<=-d[i]) *neg=-d[i]; }
  int l=s[0]==s[1]?2:(s[0]==s[2]?1:0); V3 L=v[0],M=v[1],N=v[2]; double dl=d[0],dm=d[1],dn=d[2]; if(l==1){ L=v[1]; dl=d[1]; M=v[0]; dm=d[0]; } if(l==2){ L=v[2]; dl=d[2]; N=v[0]; dn=d[0]; }
  *mid=(crossing(L,dl,M,dm)+crossing(L,dl,N,dn))*0.5; }
//@ cone_pl what="cone against plane (both solvers, both orders)" events=none assume="in[28]>0,in[29]>0" if=FAM:1|FAM:2|FAM:3|FAM:4|FAM:5|FAM:6
PROBE impl_cone_pl(const double*in,double*out){ POSE; PLP; CON; all(s,t1,h,t2,out); }
template<bool TOUCH> static inline void cone_pl(const double*in,double*out){ POSE; PLP; PL w=transform(h,t2); AXIS; if(ab(ca)<TOL){ double q=sdist(w,T),d=r-ab(q); rep(out,d>=0,q<0?1*w.n:-1*w.n,T-z*hl+z*(d/r*hl)-w.n*q,d); }
  else { V3 C=radial(w,z,ca,r); V3 v[3]={T+z*hl,T-z*hl+C,T-z*hl-C}; double d[3]; bool lo=false,hi=false; for(int i=0;i<3;++i){ d[i]=sdist(w,v[i]); if(TOUCH?d[i]<=0:d[i]<0) lo=true; if(TOUCH?d[i]>=0:d[i]>0) hi=true; } double neg,pos; V3 m; cut3<true>(v,d,&neg,&pos,&m); rep(out,lo&&hi,pos>neg?-1*w.n:1*w.n,m,pos<neg?pos:neg); } }
PROBE spec_cone_pl(const double*in,double*out){ cone_pl<false>(in,out); }
// ---- convex polyhedron (four vertices)
struct VecRep { const void *b,*e,*c; };
#define CVX alignas(Convex<double>) char buf[sizeof(Convex<double>)]; VecRep vr={in+32,in+44,in+44}; Convex<double>&s=*(Convex<double>*)buf; new((void*)&s.vertices_) std::shared_ptr<const std::vector<V3>>(std::shared_ptr<void>(),(const std::vector<V3>*)&vr)
//@ convex_hs what="convex polyhedron against half-space (both solvers, both orders)" events=none
PROBE impl_convex_hs(const double*in,double*out){ POSE; HSP; CVX; all(s,t1,h,t2,out); }
PROBE spec_convex_hs(const double*in,double*out){ POSE; HSP; HS w=transform(h,rel(t1,t2)); V3 v=gv(in+32); double d=sdist(w,v); for(int i=1;i<4;++i){ V3 x=gv(in+32+3*i); double e=sdist(w,x); if(e<d){ d=e; v=x; } } V3 n=t2.linear()*h.n; V3 p=t1.linear()*v+t1.translation(); rep(out,d<=0,-n,p-n*(0.5*d),-d); }
//@ convex_hs2 what="convexHalfspaceIntersect with optional outputs" events=none
PROBE impl_convex_hs2(const double*in,double*out){ POSE; HSP; CVX; V3 p=V3::Zero(),n=V3::Zero(); double d=0; out[0]=convexHalfspaceIntersect(s,t1,h,t2,&p,&d,&n); out[1]=convexHalfspaceIntersect(s,t1,h,t2,(V3*)nullptr,(double*)nullptr,(V3*)nullptr); pv(out+2,p); pv(out+5,n); out[8]=d; }
PROBE spec_convex_hs2(const double*in,double*out){ POSE; HSP; HS w=transform(h,t2); V3 v; double d; for(int i=0;i<4;++i){ V3 x=t1.linear()*gv(in+32+3*i)+t1.translation(); double e=sdist(w,x); if(!i||e<d){ d=e; v=x; } } bool hit=d<=0; out[0]=out[1]=hit; V3 p=v-w.n*(0.5*d); for(int i=0;i<3;++i){ out[2+i]=hit?p[i]:0; out[5+i]=hit?-w.n[i]:0; } out[8]=hit?-d:0; }
//@ convex_pl2 what="convexPlaneIntersect" events=none
PROBE impl_convex_pl2(const double*in,double*out){ POSE; PLP; CVX; V3 p=V3::Zero(),n=V3::Zero(); double d=0; out[0]=convexPlaneIntersect(s,t1,h,t2,&p,&d,&n); pv(out+1,p); pv(out+4,n); out[7]=d; }
PROBE spec_convex_pl2(const double*in,double*out){ POSE; PLP; PL w=transform(h,t2); V3 v,u; double d,e; for(int i=0;i<4;++i){ V3 x=t1.linear()*gv(in+32+3*i)+t1.translation(); double f=sdist(w,x); if(!i||f<d){ d=f; v=x; } if(!i||f>e){ e=f; u=x; } } bool hit=d*e<=0; bool up=d+e>0; V3 p=up?V3(v-w.n*d):V3(u-w.n*e); for(int i=0;i<3;++i){ out[1+i]=hit?p[i]:0; out[4+i]=hit?(up?-w.n[i]:w.n[i]):0; } out[0]=hit; out[7]=hit?(up?-d:e):0; }
// ---- triangle
#define TRI(F) V3 a=gv(in+32),b=gv(in+35),c=gv(in+38); V3 p=V3::Zero(),n=V3::Zero(); double d=0; alignas(16) char m1[sizeof(GJKSolver_indep<double>)]; const GJKSolver_indep<double>&s1=*(GJKSolver_indep<double>*)m1; alignas(16) char m2[sizeof(GJKSolver_libccd<double>)]; const GJKSolver_libccd<double>&s2=*(GJKSolver_libccd<double>*)m2; \
  out[0]=s1.shapeTriangleIntersect(h,t2,a,b,c,t1,&p,&d,&n); pv(out+1,p); pv(out+4,n); out[7]=d; p=n=V3::Zero(); d=0; out[8]=s2.shapeTriangleIntersect(h,t2,a,b,c,t1,&p,&d,&n); pv(out+9,p); pv(out+12,n); out[15]=d; out[16]=s1.shapeTriangleIntersect(h,t2,a,b,c,t1,nullptr,nullptr,nullptr)
static inline void trep(double*out,bool hit,const V3&n,const V3&p,double d){ out[16]=hit; for(int k=0;k<2;++k){ double*o=out+8*k; o[0]=hit; for(int i=0;i<3;++i){ o[1+i]=hit?p[i]:0; o[4+i]=hit?n[i]:0; } o[7]=hit?d:0; } }
//@ tri_hs what="half-space against triangle (both solvers)" events=none
PROBE impl_tri_hs(const double*in,double*out){ POSE; HSP; TRI(); }
PROBE spec_tri_hs(const double*in,double*out){ POSE; HSP; HS w=transform(h,t2); V3 v; double d; for(int i=0;i<3;++i){ V3 x=t1.linear()*gv(in+32+3*i)+t1.translation(); double e=sdist(w,x); if(!i||e<d){ d=e; v=x; } } trep(out,d<=0,w.n,v-w.n*(0.5*d),-d); }
//@ tri_pl what="plane against triangle (both solvers)" events=none
PROBE impl_tri_pl(const double*in,double*out){ POSE; PLP; TRI(); }
template<bool TOUCH> static inline void tri_pl(const double*in,double*out){ POSE; PLP; PL w=transform(h,t2); V3 v[3]; double d[3]; bool lo=false,hi=false; for(int i=0;i<3;++i){ v[i]=t1.linear()*gv(in+32+3*i)+t1.translation(); d[i]=sdist(w,v[i]); if(TOUCH?d[i]<=0:d[i]<0) lo=true; if(TOUCH?d[i]>=0:d[i]>0) hi=true; } double neg,pos; V3 m; cut3<false>(v,d,&neg,&pos,&m); trep(out,lo&&hi,pos>neg?1*w.n:-1*w.n,m,pos<neg?pos:neg); }
PROBE spec_tri_pl(const double*in,double*out){ tri_pl<false>(in,out); }
// ---- pairs of half-spaces and planes
template<class A,class B> static inline void go2(const A&a,const T3&ta,const B&b,const T3&tb,double*out){ Buf f; alignas(16) char m1[sizeof(GJKSolver_indep<double>)]; const GJKSolver_indep<double>&s1=*(GJKSolver_indep<double>*)m1; alignas(16) char m2[sizeof(GJKSolver_libccd<double>)]; const GJKSolver_libccd<double>&s2=*(GJKSolver_libccd<double>*)m2; out[0]=s1.shapeIntersect(a,ta,b,tb,f.v()); out[1]=s2.shapeIntersect(a,ta,b,tb,f.v()); out[2]=s1.shapeIntersect(a,ta,b,tb,nullptr); ((long*)out)[3]=f.e-f.b; }
#define PAIR(A,B) A a; a.n=hn; a.d=in[27]; B b; b.n=gv(in+28); b.d=in[31]
static inline V3 crs(const V3&a,const V3&b){ return V3(a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]); }
static inline bool par(const V3&a,const V3&b){ V3 c=crs(a,b); return ip(c,c)<2.220446049250313e-16; }
static inline void prep(double*out,bool r){ out[0]=out[1]=out[2]=r; ((long*)out)[3]=0; }
#if FAM==0
//@ hs_hs what="half-space against half-space" events=none if=FAM:0
PROBE impl_hs_hs(const double*in,double*out){ POSE; PAIR(HS,HS); go2(a,t1,b,t2,out); }
PROBE spec_hs_hs(const double*in,double*out){ POSE; PAIR(HS,HS); HS v=transform(a,t1),w=transform(b,t2); prep(out,!par(v.n,w.n)||ip(v.n,w.n)>0||v.d+w.d>=0); }
//@ pl_hs what="plane against half-space, both orders" events=none if=FAM:0
PROBE impl_pl_hs(const double*in,double*out){ POSE; PAIR(PL,HS); go2(a,t1,b,t2,out); go2(b,t2,a,t1,out+4); }
PROBE spec_pl_hs(const double*in,double*out){ POSE; PAIR(PL,HS); PL v=transform(a,t1); HS w=transform(b,t2); bool r=!par(v.n,w.n)||(ip(v.n,w.n)>0?v.d<w.d:v.d+w.d>=0); prep(out,r); prep(out+4,r); }
PROBE alt_pl_hs(const double*in,double*out){ POSE; PAIR(PL,HS); PL v=transform(a,t1); HS w=transform(b,t2); bool r=!par(v.n,w.n)||(ip(v.n,w.n)>0?v.d<=w.d:v.d+w.d>=0); prep(out,r); prep(out+4,r); }
//@ hs_hs2 what="halfspaceIntersect: kind, depth and line of intersection" events=none if=FAM:0
PROBE impl_hs_hs2(const double*in,double*out){ POSE; PAIR(HS,HS); V3 p=V3::Zero(),d=V3::Zero(); HS s; s.n=V3::Zero(); s.d=0; double e=0; int k=0; out[0]=halfspaceIntersect(a,t1,b,t2,p,d,s,e,k); pv(out+1,p); pv(out+4,d); pv(out+7,s.n); out[10]=s.d; out[11]=e; out[12]=k; }
PROBE spec_hs_hs2(const double*in,double*out){ POSE; PAIR(HS,HS); HS v=transform(a,t1),w=transform(b,t2); for(int i=0;i<13;++i) out[i]=0; out[0]=1; if(par(v.n,w.n)){ if(ip(v.n,w.n)>0){ bool f=v.d<w.d; out[12]=f?1:2; pv(out+7,f?v.n:w.n); out[10]=f?v.d:w.d; out[11]=__DBL_MAX__; } else if(v.d+w.d>=0){ out[12]=3; out[11]=v.d+w.d; } else out[0]=0; }
  else { out[12]=4; out[11]=__DBL_MAX__; V3 c=crs(v.n,w.n); pv(out+4,c); V3 n=w.n*v.d-v.n*w.d; pv(out+1,V3(crs(n,c)/ip(c,c))); } }
//@ pl_hs2 what="planeHalfspaceIntersect: kind, depth and line of intersection" events=none if=FAM:0
PROBE impl_pl_hs2(const double*in,double*out){ POSE; PAIR(PL,HS); V3 p=V3::Zero(),d=V3::Zero(); PL s; s.n=V3::Zero(); s.d=0; double e=0; int k=0; out[0]=planeHalfspaceIntersect(a,t1,b,t2,s,p,d,e,k); pv(out+1,p); pv(out+4,d); pv(out+7,s.n); out[10]=s.d; out[11]=e; out[12]=k; }
template<bool EQ> static inline void pl_hs2(const double*in,double*out){ POSE; PAIR(PL,HS); PL v=transform(a,t1); HS w=transform(b,t2); for(int i=0;i<13;++i) out[i]=0; out[0]=1; if(par(v.n,w.n)){ bool same=ip(v.n,w.n)>0; double e=same?w.d-v.d:w.d+v.d; if(same?(EQ?e>=0:e>0):e>=0){ out[12]=same?1:2; out[11]=e; pv(out+7,v.n); out[10]=v.d; } else out[0]=0; }
  else { out[12]=3; out[11]=__DBL_MAX__; V3 c=crs(v.n,w.n); pv(out+4,c); V3 n=w.n*v.d-v.n*w.d; pv(out+1,V3(crs(n,c)/ip(c,c))); } }
PROBE spec_pl_hs2(const double*in,double*out){ pl_hs2<false>(in,out); }
PROBE alt_pl_hs2(const double*in,double*out){ pl_hs2<true>(in,out); }
//@ pl_pl what="plane against plane: disjoint only when parallel and different" events=none if=FAM:0
PROBE impl_pl_pl(const double*in,double*out){ POSE; PAIR(PL,PL); go2(a,t1,b,t2,out); }
PROBE spec_pl_pl(const double*in,double*out){ POSE; PAIR(PL,PL); PL v=transform(a,t1),w=transform(b,t2); double c=ip(v.n,w.n); prep(out,!((c==1&&v.d!=w.d)||(c==-1&&v.d!=-w.d))); }
#endif
