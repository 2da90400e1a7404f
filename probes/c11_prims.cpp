// C11: the closed-form sphere / capsule / box / cylinder / triangle routines.  Never executed; analysed as IR.
#include "probe.h"
#include "fcl/math/detail/project.h"
extern "C" { double evp_out(double,int); double evp_proj(const double*); }
typedef const V3& cv;
#ifndef FAM
#define FAM 0
#endif
#include "fcl/math/constants.h"
// eps^(7/8) is a lazily initialised static: stands for itself as a small constant
namespace fcl { template<> inline double constants<double>::eps_78(){ return 1./(1ll<<45); } }
#ifdef PROJ_OPAQUE
namespace fcl { namespace detail {
template<> inline Project<double>::ProjectResult Project<double>::projectTriangle(cv a,cv b,cv c,cv p){ double x[12]; pv(x,a); pv(x+3,b); pv(x+6,c); pv(x+9,p); double h=evp_proj(x); ProjectResult r; r.sqr_distance=evp_out(h,0); for(int i=0;i<3;++i) r.parameterization[i]=evp_out(h,1+i); return r; }
} }
#endif
#include "math/detail/project.cpp"
#include "narrowphase/detail/primitive_shape_algorithm/sphere_sphere.cpp"
#include "narrowphase/detail/primitive_shape_algorithm/sphere_capsule.cpp"
#include "narrowphase/detail/primitive_shape_algorithm/sphere_box.cpp"
#include "narrowphase/detail/primitive_shape_algorithm/sphere_cylinder.cpp"
#include "narrowphase/detail/primitive_shape_algorithm/capsule_capsule.cpp"
#include "narrowphase/detail/primitive_shape_algorithm/sphere_triangle.cpp"
#include "fcl/narrowphase/detail/gjk_solver_indep.h"
#include "fcl/narrowphase/detail/gjk_solver_libccd.h"
using namespace fcl; using namespace fcl::detail;
typedef ContactPoint<double> CP;
// inputs: 0 rotation of the first shape (9) and its position (3), 12 pose of the second (12), 24.. sizes of the first, 28.. of the second, 32.. points
static const double RR[6][9]={{2/7.,3/7.,6/7.,3/7.,-6/7.,2/7.,6/7.,2/7.,-3/7.},{1,0,0,0,1,0,0,0,1},{1,0,0,0,-1,0,0,0,-1},{0,0,1,1,0,0,0,1,0},{1,0,0,0,.6,-.8,0,.8,.6},{.6,0,-.8,0,-1,0,-.8,0,-.6}};
// The pose of the second shape has one of six rational rotations and any translation; the first shape has any pose, its
// position being given in the frame of the second (a bijection that keeps the polynomials small).
#define POSE T3 t1=gt(in),t2; t2.setIdentity(); t2.linear()=gm(RR[(FAM+5)%6]); t2.translation()=gv(in+21); t1.translation()=t2.linear()*gv(in+9)+t2.translation()
struct Buf { CP*b,*e,*c; alignas(16) char s[2*sizeof(CP)]; Buf(){ b=e=(CP*)s; c=b+2; double*d=(double*)s; for(unsigned i=0;i<2*sizeof(CP)/8;++i) d[i]=0; } std::vector<CP>*v(){ return (std::vector<CP>*)this; }
  void put(double*o){ ((long*)o)[0]=e-b; CP&p=*(CP*)s; pv(o+1,p.normal); pv(o+4,p.pos); o[7]=p.penetration_depth; } };
template<class G,class A,class B> static inline void go(const A&a,const T3&ta,const B&b,const T3&tb,double*out){ alignas(16) char m[sizeof(G)]; const G&s=*(G*)m; Buf f; out[0]=s.shapeIntersect(a,ta,b,tb,f.v()); out[1]=s.shapeIntersect(a,ta,b,tb,nullptr); f.put(out+2); }
typedef GJKSolver_indep<double> GI; typedef GJKSolver_libccd<double> GL;
template<class A,class B> static inline void all(const A&a,const T3&ta,const B&b,const T3&tb,double*out){ go<GI>(a,ta,b,tb,out); go<GI>(b,tb,a,ta,out+10); go<GL>(a,ta,b,tb,out+20); go<GL>(b,tb,a,ta,out+30); }
static inline void rep(double*out,bool hit,const V3&n,const V3&p,double d){ for(int k=0;k<4;++k){ double*o=out+10*k,s=k&1?-1:1; o[0]=o[1]=hit; ((long*)o)[2]=hit?1:0; for(int i=0;i<3;++i){ o[3+i]=hit?s*n[i]:0; o[6+i]=hit?p[i]:0; } o[9]=hit?d:0; } }
template<class G,bool NUL,class A,class B> static inline void god(const A&a,const T3&ta,const B&b,const T3&tb,double*out){ alignas(16) char m[sizeof(G)]; const G&s=*(G*)m; double d=0; V3 p=V3::Zero(),q=V3::Zero(); out[0]=s.shapeDistance(a,ta,b,tb,&d,&p,&q); out[1]=d; pv(out+2,p); pv(out+5,q);
  if(NUL){ out[8]=s.shapeDistance(a,ta,b,tb,nullptr,nullptr,nullptr); d=0; out[9]=s.shapeDistance(a,ta,b,tb,&d,nullptr,nullptr); out[10]=d; }
}
template<bool NUL=true,class A,class B> static inline void alld(const A&a,const T3&ta,const B&b,const T3&tb,double*out){ god<GI,NUL>(a,ta,b,tb,out); god<GI,NUL>(b,tb,a,ta,out+11); god<GL,NUL>(a,ta,b,tb,out+22); god<GL,NUL>(b,tb,a,ta,out+33); }
static inline void repd(double*out,bool sep,double d,const V3&p,const V3&q,bool nul=true,bool ever=false){ for(int k=0;k<4;++k){ double*o=out+11*k; const V3&x=k&1?q:p,&y=k&1?p:q; o[0]=sep; o[1]=sep||ever?d:-1; for(int i=0;i<3;++i){ o[2+i]=sep||ever?x[i]:0; o[5+i]=sep||ever?y[i]:0; } if(nul){ o[8]=o[9]=sep; o[10]=sep||ever?d:-1; } } }
static inline double ip(const V3&a,const V3&b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static inline V3 crs(const V3&a,const V3&b){ return V3(a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]); }
static inline V3 inv(const T3&t,const V3&p){ V3 r; for(int i=0;i<3;++i){ double s=0; for(int k=0;k<3;++k) s+=t.linear()(k,i)*(p[k]-t.translation()[k]); r[i]=s; } return r; }
static inline V3 unit(const V3&v){ double n=ip(v,v); if(n>0) return V3(v/rt(n)); return v; }
static inline double cl(double x,double lo,double hi){ return x<lo?lo:x>hi?hi:x; }
#define EPS16 (16*2.220446049250313e-16)
#define SPH Sphere<double> s(in[24])
// ---- sphere, sphere
#define SS SPH; Sphere<double> h(in[28]); V3 C=t1.translation(),D=t2.translation(),f=D-C; double r=in[24],R=in[28],len=rt(ip(f,f))
//@ ss what="sphere against sphere (both solvers, both orders)" events=none assume="in[24]>0,in[28]>0"
PROBE impl_ss(const double*in,double*out){ POSE; SS; all(s,t1,h,t2,out); }
PROBE spec_ss(const double*in,double*out){ POSE; SS; V3 n=f; if(len>0) n=f/len; rep(out,len<=r+R,n,C+f*(r/(r+R)),r+R-len); }
//@ ss_d what="distance of two spheres (both solvers, both orders)" events=none assume="in[24]>0,in[28]>0"
PROBE impl_ss_d(const double*in,double*out){ POSE; SS; alld(s,t1,h,t2,out); }
PROBE spec_ss_d(const double*in,double*out){ POSE; SS; repd(out,len>r+R,len-r-R,C+f*(r/len),D-f*(R/len)); }
// ---- sphere, capsule
#define SC SPH; Capsule<double> h(in[28],in[29]); double r=in[24],R=in[28],hl=in[29]/2; V3 C=inv(t2,t1.translation()),N(0,0,cl(C[2],-hl,hl)),f=N-C; double len=rt(ip(f,f)),d=len-r-R
//@ sc what="sphere against capsule (both solvers, both orders)" events=none assume="in[24]>0,in[28]>0,in[29]>0"
PROBE impl_sc(const double*in,double*out){ POSE; SC; all(s,t1,h,t2,out); }
PROBE spec_sc(const double*in,double*out){ POSE; SC; V3 n=unit(f); rep(out,d<=0,t2.linear()*n,t2.linear()*V3(C+n*r)+t2.translation(),-d); }
//@ sc_d what="distance of sphere and capsule (both solvers, both orders)" events=none assume="in[24]>0,in[28]>0,in[29]>0"
PROBE impl_sc_d(const double*in,double*out){ POSE; SC; alld(s,t1,h,t2,out); }
PROBE spec_sc_d(const double*in,double*out){ POSE; SC; V3 n=unit(f); repd(out,d>0,d,t2.linear()*V3(C+n*r)+t2.translation(),t2.linear()*V3(N-n*R)+t2.translation()); }
// ---- sphere, box
#define SB SPH; Box<double> h(in[28],in[29],in[30]); double r=in[24]; V3 C=inv(t2,t1.translation()),N; bool outside=false; for(int i=0;i<3;++i){ double l=in[28+i]/2; N[i]=cl(C[i],-l,l); if(C[i]<-l||C[i]>l) outside=true; } V3 f=N-C; double q=ip(f,f)
static inline void body_sb(const double*in,double*out){ POSE; SB; all(s,t1,h,t2,out); }
static inline void ref_sb(const double*in,double*out){ POSE; SB; V3 n(0,0,0),p; double d; if(outside&&q>EPS16*EPS16){ double len=rt(q); n=f/len; d=r-len; p=N+n*(d/2); }
  else { int k=0; double g[3]; for(int i=0;i<3;++i) g[i]=C[i]>=0?in[28+i]/2-C[i]:in[28+i]/2+C[i]; double m=g[0]; if(g[1]+EPS16<m){ k=1; m=g[1]; } if(g[2]+EPS16<m){ k=2; m=g[2]; } for(int i=0;i<3;++i) if(i==k) n[i]=C[i]>=0?-1:1; d=m+r; p=C+n*((r-m)/2); }
  rep(out,q<=r*r,t2.linear()*n,t2.linear()*p+t2.translation(),d); }
//@ sb0 what="sphere against box (both solvers, both orders), octant 0" events=none assume="in[24]>0,in[28]>0,in[29]>0,in[30]>0,in[9]<0,in[10]<0,in[11]<0"
PROBE impl_sb0(const double*in,double*out){ body_sb(in,out); }
PROBE spec_sb0(const double*in,double*out){ ref_sb(in,out); }
//@ sb1 what="sphere against box (both solvers, both orders), octant 1" events=none assume="in[24]>0,in[28]>0,in[29]>0,in[30]>0,in[9]>=0,in[10]<0,in[11]<0"
PROBE impl_sb1(const double*in,double*out){ body_sb(in,out); }
PROBE spec_sb1(const double*in,double*out){ ref_sb(in,out); }
//@ sb2 what="sphere against box (both solvers, both orders), octant 2" events=none assume="in[24]>0,in[28]>0,in[29]>0,in[30]>0,in[9]<0,in[10]>=0,in[11]<0"
PROBE impl_sb2(const double*in,double*out){ body_sb(in,out); }
PROBE spec_sb2(const double*in,double*out){ ref_sb(in,out); }
//@ sb3 what="sphere against box (both solvers, both orders), octant 3" events=none assume="in[24]>0,in[28]>0,in[29]>0,in[30]>0,in[9]>=0,in[10]>=0,in[11]<0"
PROBE impl_sb3(const double*in,double*out){ body_sb(in,out); }
PROBE spec_sb3(const double*in,double*out){ ref_sb(in,out); }
//@ sb4 what="sphere against box (both solvers, both orders), octant 4" events=none assume="in[24]>0,in[28]>0,in[29]>0,in[30]>0,in[9]<0,in[10]<0,in[11]>=0"
PROBE impl_sb4(const double*in,double*out){ body_sb(in,out); }
PROBE spec_sb4(const double*in,double*out){ ref_sb(in,out); }
//@ sb5 what="sphere against box (both solvers, both orders), octant 5" events=none assume="in[24]>0,in[28]>0,in[29]>0,in[30]>0,in[9]>=0,in[10]<0,in[11]>=0"
PROBE impl_sb5(const double*in,double*out){ body_sb(in,out); }
PROBE spec_sb5(const double*in,double*out){ ref_sb(in,out); }
//@ sb6 what="sphere against box (both solvers, both orders), octant 6" events=none assume="in[24]>0,in[28]>0,in[29]>0,in[30]>0,in[9]<0,in[10]>=0,in[11]>=0"
PROBE impl_sb6(const double*in,double*out){ body_sb(in,out); }
PROBE spec_sb6(const double*in,double*out){ ref_sb(in,out); }
//@ sb7 what="sphere against box (both solvers, both orders), octant 7" events=none assume="in[24]>0,in[28]>0,in[29]>0,in[30]>0,in[9]>=0,in[10]>=0,in[11]>=0"
PROBE impl_sb7(const double*in,double*out){ body_sb(in,out); }
PROBE spec_sb7(const double*in,double*out){ ref_sb(in,out); }
//@ sb_d what="distance of sphere and box (both solvers, both orders)" events=none assume="in[24]>0,in[28]>0,in[29]>0,in[30]>0"
PROBE impl_sb_d(const double*in,double*out){ POSE; SB; alld(s,t1,h,t2,out); }
PROBE spec_sb_d(const double*in,double*out){ POSE; SB; double len=rt(q); V3 n=f/len; repd(out,outside&&q>r*r,len-r,t2.linear()*V3(C+n*r)+t2.translation(),t2.linear()*N+t2.translation()); }
// ---- sphere, cylinder
#define SY SPH; Cylinder<double> h(in[28],in[29]); double r=in[24],R=in[28],hl=in[29]/2; V3 C=inv(t2,t1.translation()),N=C; N[2]=cl(C[2],-hl,hl); bool outside=C[2]<-hl||C[2]>hl; double c2=C[0]*C[0]+C[1]*C[1]; if(c2>R*R){ outside=true; N[0]=C[0]*(R/rt(c2)); N[1]=C[1]*(R/rt(c2)); } V3 f=N-C; double q=ip(f,f)
//@ sy what="sphere against cylinder (both solvers, both orders)" events=none assume="in[24]>0,in[28]>0,in[29]>0"
PROBE impl_sy(const double*in,double*out){ POSE; SY; all(s,t1,h,t2,out); }
PROBE spec_sy(const double*in,double*out){ POSE; SY; V3 n(0,0,0),p; double d; if(outside&&q>EPS16*EPS16){ double len=rt(q); n=f/len; d=r-len; p=N+n*(d/2); }
  else { double face=C[2]>=0?hl-C[2]:C[2]+hl, rad=rt(c2), bar=R-rad; if(bar<face-EPS16){ if(rad>EPS16){ n=V3(-C[0]/rad,-C[1]/rad,0); d=r+bar; } else { n=V3(-1,0,0); d=r+R; } p=C+n*((r-bar)/2); } else { n[2]=C[2]>=0?-1:1; d=face+r; p=C+n*((r-face)/2); } }
  rep(out,q<=r*r,t2.linear()*n,t2.linear()*p+t2.translation(),d); }
//@ sy_d what="distance of sphere and cylinder (both solvers, both orders)" events=none assume="in[24]>0,in[28]>0,in[29]>0"
PROBE impl_sy_d(const double*in,double*out){ POSE; SY; alld(s,t1,h,t2,out); }
PROBE spec_sy_d(const double*in,double*out){ POSE; SY; double len=rt(q); V3 n=f/len; repd(out,outside&&q>r*r,len-r,t2.linear()*V3(C+n*r)+t2.translation(),t2.linear()*N+t2.translation()); }
// ---- capsule, capsule (distance only; collision goes through the generic iteration)
#define EPS78 (1./(1ll<<45))
#define CC Capsule<double> s(in[24],in[25]),h(in[28],in[29]); t1.linear()=gm(RR[(FAM/2+2)%6])
// one order: the parameter of the first segment is found first
static inline void capcap(const T3&t1,double r1,double l1,const T3&t2,double r2,double l2,double*d,V3*w1,V3*w2){ V3 z1=t1.linear().col(2),z2=t2.linear().col(2),A=t1.translation()+z1*(l1/2),B=t2.translation()+z2*(l2/2),D=z1*-l1,E=z2*-l2,w=A-B; double a=ip(D,D),b=ip(D,E),c=ip(D,w),e=ip(E,E),f=ip(E,w),den=a*e-b*b,s=0,t=0;
  if(a<=EPS78*EPS78){ if(!(e<=EPS78*EPS78)) t=cl(f/e,0,1); } else if(e<=EPS78*EPS78) s=cl(-c/a,0,1); else { if(den>EPS78*EPS78) s=cl((b*f-c*e)/den,0,1); t=(b*s+f)/e; if(t<0){ t=0; s=cl(-c/a,0,1); } else if(t>1){ t=1; s=cl((b-c)/a,0,1); } }
  V3 p=A,q=B; if(!(a<=EPS78*EPS78&&e<=EPS78*EPS78)){ p=A+D*s; q=B+E*t; } V3 g=q-p; double len=rt(ip(g,g)); V3 n; if(len>EPS78) n=g/len; else if(ab(ip(z1,z2))<1-EPS78) n=unit(crs(z1,z2)); else n=t1.linear().col(0); *d=len-r1-r2; *w1=p+n*r1; *w2=q-n*r2; }
//@ cc_d what="distance of two capsules (both solvers)" events=none assume="in[24]>0,in[25]>0,in[28]>0,in[29]>0"
PROBE impl_cc_d(const double*in,double*out){ POSE; CC; god<GI,false>(s,t1,h,t2,out); god<GL,false>(s,t1,h,t2,out+8); }
PROBE spec_cc_d(const double*in,double*out){ POSE; CC; double d; V3 p,q; capcap(t1,in[24],in[25],t2,in[28],in[29],&d,&p,&q); for(int k=0;k<2;++k){ double*o=out+8*k; o[0]=1; o[1]=d; pv(o+2,p); pv(o+5,q); } }
// ---- sphere, triangle: the triangle is any triangle, given by its side a along the first axis of the (rational) rotation
//      and its apex (b, c); everything is relative to the first corner, which is arbitrary
#define TRI SPH; double r=in[24]; M3 R=gm(RR[(FAM+5)%6]); V3 P[3]; P[0]=gv(in+32); P[1]=P[0]+R*V3(in[35],0,0); P[2]=P[0]+R*V3(in[36],in[37],0); t1.translation()=P[0]+R*gv(in+9); V3 C=t1.translation()
static inline V3 nearest(const V3&a,const V3&b,const V3&p,double*q){ V3 v=b-a,w=p-a; double t=ip(v,w),l=ip(v,v),u=t>0?(t<l?t/l:1):0; V3 n=a+v*u,f=p-n; *q=ip(f,f); return n; }
template<class G> static inline void gti(const Sphere<double>&s,const T3&t1,const V3*P,double*out){ alignas(16) char m[sizeof(G)]; const G&g=*(G*)m; V3 p=V3::Zero(),n=V3::Zero(); double d=0; out[0]=g.shapeTriangleIntersect(s,t1,P[0],P[1],P[2],&p,&d,&n); pv(out+1,p); pv(out+4,n); out[7]=d; out[8]=g.shapeTriangleIntersect(s,t1,P[0],P[1],P[2],nullptr,nullptr,nullptr); }
template<class G> static inline void gtd(const Sphere<double>&s,const T3&t1,const V3*P,double*out){ alignas(16) char m[sizeof(G)]; const G&g=*(G*)m; V3 p=V3::Zero(),n=V3::Zero(); double d=0; out[0]=g.shapeTriangleDistance(s,t1,P[0],P[1],P[2],&d,&p,&n); pv(out+1,p); pv(out+4,n); out[7]=d; }
template<class G> static inline void gtip(const Sphere<double>&s,const T3&t1,const V3*P,const T3&t2,double*out){ alignas(16) char m[sizeof(G)]; const G&g=*(G*)m; V3 p=V3::Zero(),n=V3::Zero(); double d=0; out[0]=g.shapeTriangleIntersect(s,t1,P[0],P[1],P[2],t2,&p,&d,&n); pv(out+1,p); pv(out+4,n); out[7]=d; out[8]=g.shapeTriangleIntersect(s,t1,P[0],P[1],P[2],t2,nullptr,nullptr,nullptr); }
template<class G> static inline void gtdp(const Sphere<double>&s,const T3&t1,const V3*P,const T3&t2,double*out){ alignas(16) char m[sizeof(G)]; const G&g=*(G*)m; V3 p=V3::Zero(),n=V3::Zero(); double d=0; out[0]=g.shapeTriangleDistance(s,t1,P[0],P[1],P[2],t2,&d,&p,&n); pv(out+1,p); pv(out+4,n); out[7]=d; }
#define EPS 2.220446049250313e-16
//@ st what="sphere against triangle (both solvers)" events=none assume="in[24]>0,in[35]>0,in[37]>0"
PROBE impl_st(const double*in,double*out){ T3 t1=gt(in); TRI; gti<GI>(s,t1,P,out); gti<GL>(s,t1,P,out+9); }
template<bool AGAIN> static inline void ref_st(const double*in,double*out){ T3 t1=gt(in); TRI; V3 n=unit(crs(P[1]-P[0],P[2]-P[0])); double h=ip(n,C-P[0]); if(h<0){ h=-h; n=-n; } bool hit=false; V3 p(0,0,0); double rr=r+EPS;
  if(h<rr){ double e[3]; for(int i=0;i<3;++i) e[i]=ip(crs(P[(i+1)%3]-P[i],n),C-P[i]); if((e[0]>0&&e[1]>0&&e[2]>0)||(e[0]<=0&&e[1]<=0&&e[2]<=0)){ hit=true; p=C-n*h; } else { double m=rr*rr; for(int i=0;i<3;++i){ double q; V3 x=nearest(P[i],P[(i+1)%3],C,&q); if(q<m){ m=q; hit=true; p=x; } } } }
  V3 f=p-C; double q=ip(f,f),d; if(AGAIN&&!(q<rr*rr)) hit=false; if(q>0){ d=r-rt(q); f=unit(f); } else { d=r; f=-n; } for(int k=0;k<2;++k){ double*o=out+9*k; o[0]=hit; for(int i=0;i<3;++i){ o[1+i]=hit?p[i]:0; o[4+i]=hit?f[i]:0; } o[7]=hit?d:0; o[8]=hit; } }
PROBE spec_st(const double*in,double*out){ ref_st<true>(in,out); }
PROBE alt_st(const double*in,double*out){ ref_st<false>(in,out); }
#define POSED SPH; V3 P[3]={gv(in+32),gv(in+35),gv(in+38)},Q[3]; for(int i=0;i<3;++i) Q[i]=t2.linear()*P[i]+t2.translation()
#ifdef PROJ_OPAQUE
//@ std what="distance of sphere and triangle with nearest points in the world frame (both solvers)" events=none assume="in[24]>0" if=PROJ_OPAQUE
PROBE impl_std(const double*in,double*out){ POSE; POSED; t1=gt(in); gtd<GI>(s,t1,Q,out); gtd<GL>(s,t1,Q,out+8); }
static inline void ref_std(const double*in,double*out){ POSE; POSED; t1=gt(in); double x[12]; for(int i=0;i<3;++i) pv(x+3*i,Q[i]); V3 C=t1.translation(); pv(x+9,C); double h=evp_proj(x),q=evp_out(h,0),r=in[24]; bool sep=q>r*r; V3 p=Q[0]*evp_out(h,1)+Q[1]*evp_out(h,2)+Q[2]*evp_out(h,3); V3 n=unit(C-p); for(int k=0;k<2;++k){ double*o=out+8*k; o[0]=sep; for(int i=0;i<3;++i){ o[1+i]=sep?C[i]-n[i]*r:0; o[4+i]=sep?p[i]:0; } o[7]=sep?rt(q)-r:-1; } }
PROBE spec_std(const double*in,double*out){ ref_std(in,out); }
//@ stdp what="distance of sphere and posed triangle (both solvers)" events=none assume="in[24]>0" if=PROJ_OPAQUE
PROBE impl_stdp(const double*in,double*out){ POSE; POSED; t1=gt(in); gtdp<GI>(s,t1,P,t2,out); gtdp<GL>(s,t1,P,t2,out+8); }
PROBE spec_stdp(const double*in,double*out){ ref_std(in,out); }
#else
//@ stp what="a posed triangle collides as the triangle at its posed corners (both solvers)" events=none assume="in[24]>0,in[35]>0,in[37]>0" if=FAM:2|FAM:4
PROBE impl_stp(const double*in,double*out){ POSE; TRI; t1.translation()=t2*C; gtip<GI>(s,t1,P,t2,out); gtip<GL>(s,t1,P,t2,out+9); }
PROBE spec_stp(const double*in,double*out){ POSE; TRI; t1.translation()=t2*C; for(int i=0;i<3;++i) P[i]=t2*P[i]; gti<GI>(s,t1,P,out); gti<GL>(s,t1,P,out+9); }
// squared distance of a point to a triangle, by the region of its projection (Eberly)
static inline double q1(double a,double b,double c){ return b>=0?c:-b>=a?a+2*b+c:b*(-b/a)+c; }
//@ std0 what="distance of sphere and triangle without nearest points (both solvers)" events=none assume="in[24]>0,in[35]>0,in[37]>0"
PROBE impl_std0(const double*in,double*out){ T3 t1=gt(in); TRI; double d=0; out[0]=sphereTriangleDistance(s,t1,P[0],P[1],P[2],&d); out[1]=d; alignas(16) char m[sizeof(GI)]; GI&g=*(GI*)m; out[2]=g.shapeTriangleDistance(s,t1,P[0],P[1],P[2],&d,nullptr,nullptr); out[3]=d; alignas(16) char m2[sizeof(GL)]; GL&l=*(GL*)m2; out[4]=l.shapeTriangleDistance(s,t1,P[0],P[1],P[2],&d,nullptr,nullptr); out[5]=d; }
PROBE spec_std0(const double*in,double*out){ T3 t1=gt(in); TRI; V3 D=P[0]-C,E=P[1]-P[0],F=P[2]-P[0]; double a=ip(E,E),b=ip(E,F),c=ip(F,F),d=ip(D,E),e=ip(D,F),f=ip(D,D),det=ab(a*c-b*b),s0=b*e-c*d,t0=b*d-a*e,q;
  double m=a-2*b+c, sl=e-d+b-a; // squared length of the third side, slope of the squared distance along it at P1
  double q12=-sl<=0?a+2*d+f:(-sl>=m?c+2*e+f:a+2*d+f+sl*(-sl/m));
  if(s0+t0<=det){ if(s0<0){ if(t0<0) q=d<0?q1(a,d,f):q1(c,e,f); else q=q1(c,e,f); } else if(t0<0) q=q1(a,d,f); else { double s1=s0/det,t1_=t0/det; q=s1*(a*s1+b*t1_+2*d)+t1_*(b*s1+c*t1_+2*e)+f; } }
  else if(s0<0){ if(c+e>b+d) q=q12; else q=c+e<=0?c+2*e+f:q1(c,e,f); } else if(t0<0){ if(a+d>b+e) q=q12; else q=a+d<=0?a+2*d+f:q1(a,d,f); } else q=q12;
  if(q<0) q=0; double r2=in[24]*in[24]; bool sep=q>r2; for(int i=0;i<3;++i){ out[2*i]=sep; out[2*i+1]=sep?rt(q)-in[24]:-1; } }
// ---- projections used above
typedef Project<double> PJ;
//@ pl what="projection of a point on a segment" events=none
PROBE impl_pl(const double*in,double*out){ PJ::ProjectResult x=PJ::projectLine(gv(in),gv(in+3),gv(in+6)); out[0]=x.sqr_distance; out[1]=x.parameterization[0]; out[2]=x.parameterization[1]; out[3]=x.encode; V3 a=gv(in)-gv(in+6),b=gv(in+3)-gv(in+6); x=PJ::projectLineOrigin(a,b); out[4]=x.sqr_distance; out[5]=x.parameterization[0]; out[6]=x.parameterization[1]; out[7]=x.encode; }
PROBE spec_pl(const double*in,double*out){ V3 a=gv(in),b=gv(in+3),p=gv(in+6),v=b-a,w=p-a; double l=ip(v,v),t=ip(v,w); for(int k=0;k<2;++k){ double*o=out+4*k; if(l>0){ double u=t>=l?1:t<=0?0:t/l; V3 f=a+v*u-p; o[0]=ip(f,f); o[1]=1-u; o[2]=u; o[3]=t>=l?2:t<=0?1:3; } else { o[0]=-1; o[1]=o[2]=0; o[3]=0; } } }
// one of six triangles (acute, right, obtuse on either side), any point
static const double TT[6][3]={{4,1,3},{3,0,4},{3,-4,3},{3,7,1},{2,1,2},{1,.5,-6}};
#define TRIC M3 R=gm(RR[(FAM+5)%6]); const double*T=TT[(FAM+5)%6]; V3 P[3]; P[0]=gv(in+32); P[1]=P[0]+R*V3(T[0],0,0); P[2]=P[0]+R*V3(T[1],T[2],0); V3 C=P[0]+R*gv(in+9)
//@ pt what="projection of a point on a triangle" events=none
PROBE impl_pt(const double*in,double*out){ T3 t1=gt(in); TRIC; PJ::ProjectResult x=PJ::projectTriangle(P[0],P[1],P[2],C); out[0]=x.sqr_distance; out[1]=x.encode; for(int i=0;i<3;++i) out[2+i]=x.parameterization[i]; V3 a=P[0]-C,b=P[1]-C,c=P[2]-C; x=PJ::projectTriangleOrigin(a,b,c); out[5]=x.sqr_distance; out[6]=x.encode; for(int i=0;i<3;++i) out[7+i]=x.parameterization[i]; }
PROBE spec_pt(const double*in,double*out){ T3 t1=gt(in); TRIC; V3 n=crs(P[1]-P[0],P[2]-P[0]); double nn=ip(n,n),m=-1,u[3]={0,0,0},code=0; for(int i=0;i<3;++i){ int j=(i+1)%3,k=(i+2)%3; V3 a=P[i],v=P[j]-a,w=C-a; if(ip(w,crs(v,n))>0){ double l=ip(v,v),t=ip(v,w),x=t>=l?1:t<=0?0:t/l; V3 f=a+v*x-C; double q=ip(f,f); if(m<0||q<m){ m=q; u[i]=1-x; u[j]=x; u[k]=0; code=t>=l?(1<<j):t<=0?(1<<i):(1<<i)+(1<<j); } } }
  if(m<0){ double h=ip(n,P[0]-C); V3 o=n*(h/nn); m=ip(o,o); code=7; for(int i=0;i<2;++i){ int j=(i+1)%3,k=(i+2)%3; V3 g=crs(P[k]-P[j],P[j]-C-o); u[i]=rt(ip(g,g))/rt(nn); } u[2]=1-u[0]-u[1]; }
  for(int k=0;k<2;++k){ double*o=out+5*k; o[0]=m; o[1]=code; for(int i=0;i<3;++i) o[2+i]=u[i]; } }
#endif
