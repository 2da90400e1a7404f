// C13: interval and Taylor-model arithmetic.  Never executed; analysed as IR.
#include "probe.h"
#include "fcl/math/motion/taylor_model/interval.h"
#include "fcl/math/motion/taylor_model/interval_vector.h"
#include "fcl/math/motion/taylor_model/interval_matrix.h"
#include "fcl/math/motion/taylor_model/taylor_model.h"
#include "fcl/math/motion/taylor_model/taylor_vector.h"
#include "fcl/math/motion/taylor_model/taylor_matrix.h"
using namespace fcl;
typedef Interval<double> I; typedef IVector3<double> IV; typedef IMatrix3<double> IM; typedef TaylorModel<double> TM; typedef TVector3<double> TV; typedef TMatrix3<double> TMx;
static inline void pi_(double*o,const I&x){ o[0]=x[0]; o[1]=x[1]; }
static inline void pI(double*o,const I&x){ o[0]=x[0]; o[1]=x[1]; }
// sign classes of an interval with parameters p,w >= 0
static inline void P(const double*in,double*o){ o[0]=in[0]; o[1]=in[0]+in[1]; }
static inline void N(const double*in,double*o){ o[0]=-in[0]-in[1]; o[1]=-in[0]; }
static inline void M(const double*in,double*o){ o[0]=-in[0]; o[1]=in[1]; }
static inline void smul(const double*a,const double*b,double*o){ double p=a[0]*b[0],q=a[0]*b[1],r=a[1]*b[0],s=a[1]*b[1]; o[0]=mn(mn(p,q),mn(r,s)); o[1]=mx(mx(p,q),mx(r,s)); }
static inline void sadd(const double*a,const double*b,double*o){ double l=a[0]+b[0],h=a[1]+b[1]; o[0]=l;o[1]=h; }
static inline void ssub(const double*a,const double*b,double*o){ double l=a[0]-b[1],h=a[1]-b[0]; o[0]=l;o[1]=h; }
static inline void sscl(const double*a,double d,double*o){ double p=a[0]*d,q=a[1]*d; o[0]=mn(p,q); o[1]=mx(p,q); }
#define MUL(NAME,CA,CB) \
PROBE impl_mul_##NAME(const double*in,double*out){ double a[2],b[2]; CA(in,a); CB(in+2,b); I x(a[0],a[1]),y(b[0],b[1]); I z=x*y; pI(out,z); I w=x; w*=y; pI(out+2,w); } \
PROBE spec_mul_##NAME(const double*in,double*out){ double a[2],b[2]; CA(in,a); CB(in+2,b); smul(a,b,out); smul(a,b,out+2); }
//@ mul_PP what="Interval * and *= (both non-negative)" assume="in[0]>=0,in[1]>=0,in[2]>=0,in[3]>=0"
MUL(PP,P,P)
//@ mul_PN what="Interval * and *= (+,-)" assume="in[0]>=0,in[1]>=0,in[2]>=0,in[3]>=0"
MUL(PN,P,N)
//@ mul_PM what="Interval * and *= (+,mixed)" assume="in[0]>=0,in[1]>=0,in[2]>=0,in[3]>=0"
MUL(PM,P,M)
//@ mul_NP what="Interval * and *= (-,+)" assume="in[0]>=0,in[1]>=0,in[2]>=0,in[3]>=0"
MUL(NP,N,P)
//@ mul_NN what="Interval * and *= (-,-)" assume="in[0]>=0,in[1]>=0,in[2]>=0,in[3]>=0"
MUL(NN,N,N)
//@ mul_NM what="Interval * and *= (-,mixed)" assume="in[0]>=0,in[1]>=0,in[2]>=0,in[3]>=0"
MUL(NM,N,M)
//@ mul_MP what="Interval * and *= (mixed,+)" assume="in[0]>=0,in[1]>=0,in[2]>=0,in[3]>=0"
MUL(MP,M,P)
//@ mul_MN what="Interval * and *= (mixed,-)" assume="in[0]>=0,in[1]>=0,in[2]>=0,in[3]>=0"
MUL(MN,M,N)
//@ mul_MM what="Interval * and *= (mixed,mixed)" assume="in[0]>=0,in[1]>=0,in[2]>=0,in[3]>=0"
MUL(MM,M,M)
// compound assignment with the operand itself (the operands are then independent values of the same interval)
#define SELF(NAME,CA) \
PROBE impl_self_##NAME(const double*in,double*out){ double a[2]; CA(in,a); I x(a[0],a[1]); x*=x; pI(out,x); I y(a[0],a[1]); y-=y; pI(out+2,y); I z(a[0],a[1]); z+=z; pI(out+4,z); } \
PROBE spec_self_##NAME(const double*in,double*out){ double a[2]; CA(in,a); smul(a,a,out); ssub(a,a,out+2); sadd(a,a,out+4); }
//@ self_P what="Interval *=, -=, += with itself as operand" assume="in[0]>=0,in[1]>=0"
SELF(P,P)
//@ self_N what="Interval *=, -=, += with itself as operand" assume="in[0]>=0,in[1]>=0"
SELF(N,N)
//@ self_M what="Interval *=, -=, += with itself as operand" assume="in[0]>=0,in[1]>=0"
SELF(M,M)
#define DIV(NAME,CA,SG) \
PROBE impl_div_##NAME(const double*in,double*out){ double a[2]; CA(in,a); I x(a[0],a[1]),y(SG>0?in[2]:-in[2]-in[3],SG>0?in[2]+in[3]:-in[2]); I z=x/y; pI(out,z); I w=x; w/=y; pI(out+2,w); } \
PROBE spec_div_##NAME(const double*in,double*out){ double a[2],b[2]; CA(in,a); if(SG>0){ b[0]=1/(in[2]+in[3]); b[1]=1/in[2]; } else { b[0]=-1/in[2]; b[1]=-1/(in[2]+in[3]); } smul(a,b,out); smul(a,b,out+2); }
//@ div_PP what="Interval / (+,+)" assume="in[0]>=0,in[1]>=0,in[2]>0,in[3]>0"
DIV(PP,P,1)
//@ div_NP what="Interval / (-,+)" assume="in[0]>=0,in[1]>=0,in[2]>0,in[3]>0"
DIV(NP,N,1)
//@ div_MP what="Interval / (mixed,+)" assume="in[0]>=0,in[1]>=0,in[2]>0,in[3]>0"
DIV(MP,M,1)
//@ div_PN what="Interval / (+,-)" assume="in[0]>=0,in[1]>=0,in[2]>0,in[3]>0"
DIV(PN,P,-1)
//@ div_NN what="Interval / (-,-)" assume="in[0]>=0,in[1]>=0,in[2]>0,in[3]>0"
DIV(NN,N,-1)
//@ div_MN what="Interval / (mixed,-)" assume="in[0]>=0,in[1]>=0,in[2]>0,in[3]>0"
DIV(MN,M,-1)
// linear operations on arbitrary (ordered) intervals [a, a+w]
static inline void G(const double*in,double*o){ o[0]=in[0]; o[1]=in[0]+in[1]; }
//@ lin what="Interval +, -, unary -, +=, -=" assume="in[1]>=0,in[3]>=0"
PROBE impl_lin(const double*in,double*out){ double a[2],b[2]; G(in,a); G(in+2,b); I x(a[0],a[1]),y(b[0],b[1]); pI(out,x+y); pI(out+2,x-y); pI(out+4,-x); I z=x; z+=y; pI(out+6,z); z=x; z-=y; pI(out+8,z); pI(out+10,I(in[0])); pI(out+12,I()); I s; s.setValue(in[0],in[1]); pI(out+14,s); s.setValue(in[0]); pI(out+16,s); out[18]=x.center(); out[19]=x.diameter(); }
PROBE spec_lin(const double*in,double*out){ double a[2],b[2]; G(in,a); G(in+2,b); sadd(a,b,out); ssub(a,b,out+2); out[4]=-a[1]; out[5]=-a[0]; sadd(a,b,out+6); ssub(a,b,out+8); out[10]=out[11]=in[0]; out[12]=out[13]=0; out[14]=in[0];out[15]=in[1]; out[16]=out[17]=in[0]; out[18]=(a[0]+a[1])/2; out[19]=in[1]; }
//@ scl what="Interval scaled by a number" assume="in[1]>=0"
PROBE impl_scl(const double*in,double*out){ double a[2]; G(in,a); I x(a[0],a[1]); pI(out,x*in[2]); x*=in[2]; pI(out+2,x); }
PROBE spec_scl(const double*in,double*out){ double a[2]; G(in,a); sscl(a,in[2],out); sscl(a,in[2],out+2); }
//@ meet what="Interval::overlap and intersect" assume="in[1]>=0,in[3]>=0"
PROBE impl_meet(const double*in,double*out){ double a[2],b[2]; G(in,a); G(in+2,b); I x(a[0],a[1]),y(b[0],b[1]); out[0]=x.overlap(y); bool r=x.intersect(y); out[1]=r; if(r) pI(out+2,x); else out[2]=out[3]=0; }
PROBE spec_meet(const double*in,double*out){ double a[2],b[2]; G(in,a); G(in+2,b); bool r=mx(a[0],b[0])<=mn(a[1],b[1]); out[0]=r; out[1]=r; if(r){ out[2]=mx(a[0],b[0]); out[3]=mn(a[1],b[1]); } else out[2]=out[3]=0; }
//@ hull what="Interval::bound (hull) and contains" assume="in[1]>=0,in[3]>=0"
PROBE impl_hull(const double*in,double*out){ double a[2],b[2]; G(in,a); G(in+2,b); I x(a[0],a[1]),y(b[0],b[1]); I u=x; u.bound(y); pI(out,u); u=x; u.bound(in[4]); pI(out+2,u); out[4]=x.contains(in[4]); out[5]=x==y; }
PROBE spec_hull(const double*in,double*out){ double a[2],b[2]; G(in,a); G(in+2,b); out[0]=mn(a[0],b[0]); out[1]=mx(a[1],b[1]); out[2]=mn(a[0],in[4]); out[3]=mx(a[1],in[4]); out[4]=a[0]<=in[4]&&in[4]<=a[1]; out[5]=a[0]==b[0]&&a[1]==b[1]; }
#define ABS(NAME,CA) PROBE impl_abs_##NAME(const double*in,double*out){ double a[2]; CA(in,a); I x(a[0],a[1]); out[0]=x.getAbsLower(); out[1]=x.getAbsUpper(); } \
PROBE spec_abs_##NAME(const double*in,double*out){ double a[2]; CA(in,a); out[0]=(a[0]<=0&&a[1]>=0)?0:mn(ab(a[0]),ab(a[1])); out[1]=mx(ab(a[0]),ab(a[1])); }
//@ abs_P what="Interval::getAbsLower/getAbsUpper" assume="in[0]>=0,in[1]>=0"
ABS(P,P)
//@ abs_N what="Interval::getAbsLower/getAbsUpper" assume="in[0]>=0,in[1]>=0"
ABS(N,N)
//@ abs_M what="Interval::getAbsLower/getAbsUpper" assume="in[0]>=0,in[1]>=0"
ABS(M,M)
// ---- vectors: components in the classes P, N, M so that every product has a known corner form
static inline IV iv(const double*a){ return IV(a[0],a[1],a[2],a[3],a[4],a[5]); }
static inline void piv(double*o,const IV&v){ for(int k=0;k<3;++k){ o[2*k]=v[k][0]; o[2*k+1]=v[k][1]; } }
static inline void cls(const double*in,double*a,double*b){ P(in,a);N(in+2,a+2);P(in+4,a+4); N(in+6,b);P(in+8,b+2);P(in+10,b+4); }
#define VA assume="in[0]>=0,in[1]>=0,in[2]>=0,in[3]>=0,in[4]>=0,in[5]>=0,in[6]>=0,in[7]>=0,in[8]>=0,in[9]>=0,in[10]>=0,in[11]>=0"
//@ ivlin what="IVector3 +, -, +=, -=, volumn, center, getLow/High" assume="in[0]>=0,in[1]>=0,in[2]>=0,in[3]>=0,in[4]>=0,in[5]>=0,in[6]>=0,in[7]>=0,in[8]>=0,in[9]>=0,in[10]>=0,in[11]>=0"
PROBE impl_ivlin(const double*in,double*out){ double a[6],b[6]; cls(in,a,b); IV x=iv(a),y=iv(b); piv(out,x+y); piv(out+6,x-y); IV z=x; z+=y; piv(out+12,z); z=x; z-=y; piv(out+18,z); out[24]=x.volumn(); pv(out+25,x.center()); pv(out+28,x.getLow()); pv(out+31,x.getHigh()); }
PROBE spec_ivlin(const double*in,double*out){ double a[6],b[6]; cls(in,a,b); for(int k=0;k<6;k+=2){ sadd(a+k,b+k,out+k); ssub(a+k,b+k,out+6+k); sadd(a+k,b+k,out+12+k); ssub(a+k,b+k,out+18+k); out[25+k/2]=(a[k]+a[k+1])/2; out[28+k/2]=a[k]; out[31+k/2]=a[k+1]; } out[24]=(a[1]-a[0])*(a[3]-a[2])*(a[5]-a[4]); }
//@ ivprod what="IVector3 dot and cross with an interval vector" assume="in[0]>0,in[1]>0,in[2]>0,in[3]>0,in[4]>0,in[5]>0,in[6]>0,in[7]>0,in[8]>0,in[9]>0,in[10]>0,in[11]>0"
PROBE impl_ivprod(const double*in,double*out){ double a[6],b[6]; cls(in,a,b); IV x=iv(a),y=iv(b); pI(out,x.dot(y)); piv(out+2,x.cross(y)); }
static inline void sdot(const double*a,const double*b,double*o){ double t[2]; smul(a,b,o); smul(a+2,b+2,t); sadd(o,t,o); smul(a+4,b+4,t); sadd(o,t,o); }
static inline void scross(const double*a,const double*b,double*o){ double s[2],t[2]; for(int k=0;k<3;++k){ int i=(k+1)%3,j=(k+2)%3; smul(a+2*i,b+2*j,s); smul(a+2*j,b+2*i,t); ssub(s,t,o+2*k); } }
PROBE spec_ivprod(const double*in,double*out){ double a[6],b[6]; cls(in,a,b); sdot(a,b,out); scross(a,b,out+2); }
//@ ivvec what="IVector3 dot and cross with a vector" assume="in[0]>0,in[1]>0,in[2]>0,in[3]>0,in[4]>0,in[5]>0,in[6]>0,in[7]>0,in[8]>0"
PROBE impl_ivvec(const double*in,double*out){ double a[6],b[6]; P(in,a);N(in+2,a+2);P(in+4,a+4); IV x=iv(a); V3 v(in[6],-in[7],in[8]); pI(out,x.dot(v)); piv(out+2,x.cross(v)); (void)b; }
PROBE spec_ivvec(const double*in,double*out){ double a[6]; P(in,a);N(in+2,a+2);P(in+4,a+4); double b[6]={in[6],in[6],-in[7],-in[7],in[8],in[8]}; sdot(a,b,out); scross(a,b,out+2); }
#define IVB(NAME,K,L) PROBE impl_ivbound##NAME(const double*in,double*out){ double a[6],b[6]; for(int k=0;k<3;++k){ a[2*k]=in[2*k]; a[2*k+1]=in[2*k]+in[2*k+1]; b[2*k]=in[6+2*k]; b[2*k+1]=in[6+2*k]+in[7+2*k]; } IV x=iv(a),y=iv(b); IV z=x; V3 v(b[0],b[2],b[4]); if(K==0) z.bound(y); else if(K==1) z.bound(v); else if(K==2) z=bound(x,y); else z=bound(x,v); piv(out,z); } \
PROBE spec_ivbound##NAME(const double*in,double*out){ for(int k=0;k<3;++k){ double h=(K==0||K==2)?in[6+2*k]+in[7+2*k]:in[6+2*k]; out[2*k]=mn(in[2*k],in[6+2*k]); out[2*k+1]=mx(in[2*k]+in[2*k+1],h); } }
//@ ivboundA what="IVector3::bound(IVector3)" assume="in[1]>=0,in[3]>=0,in[5]>=0,in[7]>=0,in[9]>=0,in[11]>=0"
IVB(A,0,0)
//@ ivboundB what="IVector3::bound(Vector3)" assume="in[1]>=0,in[3]>=0,in[5]>=0,in[7]>=0,in[9]>=0,in[11]>=0"
IVB(B,1,0)
//@ ivboundC what="bound(IVector3, IVector3)" assume="in[1]>=0,in[3]>=0,in[5]>=0,in[7]>=0,in[9]>=0,in[11]>=0"
IVB(C,2,0)
//@ ivboundD what="bound(IVector3, Vector3)" assume="in[1]>=0,in[3]>=0,in[5]>=0,in[7]>=0,in[9]>=0,in[11]>=0"
IVB(D,3,0)
//@ ivrel what="IVector3::overlap and contain" assume="in[1]>=0,in[3]>=0,in[5]>=0,in[7]>=0,in[9]>=0,in[11]>=0"
PROBE impl_ivrel(const double*in,double*out){ double a[6],b[6]; for(int k=0;k<3;++k){ a[2*k]=in[2*k]; a[2*k+1]=in[2*k]+in[2*k+1]; b[2*k]=in[6+2*k]; b[2*k+1]=in[6+2*k]+in[7+2*k]; } IV x=iv(a),y=iv(b); out[0]=x.overlap(y); out[1]=x.contain(y); }
PROBE spec_ivrel(const double*in,double*out){ double a[6],b[6]; for(int k=0;k<3;++k){ a[2*k]=in[2*k]; a[2*k+1]=in[2*k]+in[2*k+1]; b[2*k]=in[6+2*k]; b[2*k+1]=in[6+2*k]+in[7+2*k]; } bool o=true,c=true; for(int k=0;k<6;k+=2){ o&=(a[k]<=b[k+1]&&b[k]<=a[k+1]); c&=(a[k]<=b[k]&&b[k+1]<=a[k+1]); } out[0]=o; out[1]=c; }
//@ ivset what="IVector3 constructors and setters"
PROBE impl_ivset(const double*in,double*out){ piv(out,IV(in[0])); piv(out+6,IV(in[0],in[1],in[2])); double v[3][2]={{in[0],in[1]},{in[2],in[3]},{in[4],in[5]}}; piv(out+12,IV(v)); I w[3]={I(in[0],in[1]),I(in[2],in[3]),I(in[4],in[5])}; piv(out+18,IV(w)); piv(out+24,IV(w[0],w[1],w[2])); piv(out+30,IV(V3(in[0],in[1],in[2]))); IV z; double q[3]={in[0],in[1],in[2]}; z.setValue(q); piv(out+36,z); z.setZero(); piv(out+42,z); }
PROBE spec_ivset(const double*in,double*out){ for(int k=0;k<6;++k){ out[k]=in[0]; out[6+k]=in[k/2]; out[12+k]=in[k]; out[18+k]=in[k]; out[24+k]=in[k]; out[30+k]=in[k/2]; out[36+k]=in[k/2]; out[42+k]=0; } }
// ---- interval matrices
static inline IM im(const double*a){ return IM(iv(a),iv(a+6),iv(a+12)); }
static inline void pim(double*o,const IM&m){ for(int i=0;i<3;++i)for(int j=0;j<3;++j){ o[6*i+2*j]=m(i,j)[0]; o[6*i+2*j+1]=m(i,j)[1]; } }
//@ imlin what="IMatrix3 +, -, +=, -=, low/high, rows and columns"
PROBE impl_imlin(const double*in,double*out){ IM x=im(in),y=im(in+18); pim(out,x+y); pim(out+18,x-y); IM z=x; z+=y; pim(out+36,z); z=x; z-=y; pim(out+54,z); pm(out+72,x.getLow()); pm(out+81,x.getHigh()); for(int k=0;k<3;++k){ piv(out+90+6*k,x.getColumn(k)); piv(out+108+6*k,x.getRow(k)); pv(out+126+3*k,x.getColumnLow(k)); pv(out+135+3*k,x.getColumnHigh(k)); pv(out+144+3*k,x.getRowLow(k)); pv(out+153+3*k,x.getRowHigh(k)); } }
PROBE spec_imlin(const double*in,double*out){ for(int k=0;k<18;k+=2){ sadd(in+k,in+18+k,out+k); ssub(in+k,in+18+k,out+18+k); sadd(in+k,in+18+k,out+36+k); ssub(in+k,in+18+k,out+54+k); out[72+k/2]=in[k]; out[81+k/2]=in[k+1]; } for(int k=0;k<3;++k)for(int j=0;j<3;++j){ out[90+6*k+2*j]=in[6*j+2*k]; out[91+6*k+2*j]=in[6*j+2*k+1]; out[108+6*k+2*j]=in[6*k+2*j]; out[109+6*k+2*j]=in[6*k+2*j+1]; out[126+3*k+j]=in[6*j+2*k]; out[135+3*k+j]=in[6*j+2*k+1]; out[144+3*k+j]=in[6*k+2*j]; out[153+3*k+j]=in[6*k+2*j+1]; } }
// products: entries of fixed sign pattern, thin in the second operand
static inline void mcls(const double*in,double*a){ for(int k=0;k<9;++k){ if(k%2) N(in+2*k,a+2*k); else P(in+2*k,a+2*k); } }
#define A36 "in[0]>=0,in[1]>=0,in[2]>=0,in[3]>=0,in[4]>=0,in[5]>=0,in[6]>=0,in[7]>=0,in[8]>=0,in[9]>=0,in[10]>=0,in[11]>=0,in[12]>=0,in[13]>=0,in[14]>=0,in[15]>=0,in[16]>=0,in[17]>=0,in[18]>=0,in[19]>=0,in[20]>=0,in[21]>=0,in[22]>=0,in[23]>=0,in[24]>=0,in[25]>=0,in[26]>=0,in[27]>=0,in[28]>=0,in[29]>=0,in[30]>=0,in[31]>=0,in[32]>=0,in[33]>=0,in[34]>=0,in[35]>=0"
//@ immul what="IMatrix3 times matrices and vectors" assume="in[0]>0,in[1]>0,in[2]>0,in[3]>0,in[4]>0,in[5]>0,in[6]>0,in[7]>0,in[8]>0,in[9]>0,in[10]>0,in[11]>0,in[12]>0,in[13]>0,in[14]>0,in[15]>0,in[16]>0,in[17]>0,in[18]>0,in[19]>0,in[20]>0,in[21]>0,in[22]>0,in[23]>0,in[24]>0,in[25]>0,in[26]>0,in[27]>0,in[28]>0,in[29]>0,in[30]>0,in[31]>0,in[32]>0,in[33]>0,in[34]>0,in[35]>0"
PROBE impl_immul(const double*in,double*out){ double a[18],b[18]; mcls(in,a); mcls(in+18,b); IM x=im(a),y=im(b); pim(out,x*y); IM z=x; z*=y; pim(out+18,z); piv(out+36,x*iv(b)); }
PROBE spec_immul(const double*in,double*out){ double a[18],b[18]; mcls(in,a); mcls(in+18,b); for(int i=0;i<3;++i){ for(int j=0;j<3;++j){ double c[6]; for(int k=0;k<3;++k){ c[2*k]=b[6*k+2*j]; c[2*k+1]=b[6*k+2*j+1]; } sdot(a+6*i,c,out+6*i+2*j); sdot(a+6*i,c,out+18+6*i+2*j); } sdot(a+6*i,b,out+36+2*i); } }
//@ immat what="IMatrix3 times a plain matrix or vector" assume="in[0]>0,in[1]>0,in[2]>0,in[3]>0,in[4]>0,in[5]>0,in[6]>0,in[7]>0,in[8]>0,in[9]>0,in[10]>0,in[11]>0,in[12]>0,in[13]>0,in[14]>0,in[15]>0,in[16]>0,in[17]>0,in[18]>0,in[19]>0,in[20]>0,in[21]>0,in[22]>0,in[23]>0,in[24]>0,in[25]>0,in[26]>0"
PROBE impl_immat(const double*in,double*out){ double a[18]; mcls(in,a); IM x=im(a); M3 m; for(int k=0;k<9;++k) m(k/3,k%3)=(k%2)?-in[18+k]:in[18+k]; pim(out,x*m); IM z=x; z*=m; pim(out+18,z); piv(out+36,x*V3(m(0,0),m(0,1),m(0,2))); pim(out+42,IM(m)); }
PROBE spec_immat(const double*in,double*out){ double a[18],b[18]; mcls(in,a); for(int k=0;k<9;++k) b[2*k]=b[2*k+1]=(k%2)?-in[18+k]:in[18+k]; for(int i=0;i<3;++i){ for(int j=0;j<3;++j){ double c[6]; for(int k=0;k<3;++k){ c[2*k]=b[6*k+2*j]; c[2*k+1]=b[6*k+2*j+1]; } sdot(a+6*i,c,out+6*i+2*j); sdot(a+6*i,c,out+18+6*i+2*j); } sdot(a+6*i,b,out+36+2*i); } for(int k=0;k<18;++k) out[42+k]=b[k]; }
//@ imrot what="rotationConstrain of an interval matrix"
PROBE impl_imrot(const double*in,double*out){ IM x=im(in); IM y=rotationConstrain(x); pim(out,y); x.rotationConstrain(); pim(out+18,x); x.setIdentity(); pim(out+36,x); }
static inline double clamp1(double a){ return a<-1?-1:(a>1?1:a); }
PROBE spec_imrot(const double*in,double*out){ for(int k=0;k<18;++k){ out[k]=out[18+k]=clamp1(in[k]); out[36+k]=((k/2)%4==0)?1:0; } }
// ---- Taylor models; time interval [in[0], in[0]+in[1]] with both >= 0
struct TIb { TimeInterval<double> t; };
static inline std::shared_ptr<TimeInterval<double>> sp(TimeInterval<double>&t){ return std::shared_ptr<TimeInterval<double>>(std::shared_ptr<void>(),&t); }
static inline void ptm(double*o,const TM&m){ for(int i=0;i<4;++i) o[i]=m.coeff(i); o[4]=m.remainder()[0]; o[5]=m.remainder()[1]; }
#define NN2 "in[0]>=0,in[1]>=0"
//@ tiset what="TimeInterval powers" assume="in[0]>=0,in[1]>=0"
PROBE impl_tiset(const double*in,double*out){ TimeInterval<double> t(in[0],in[0]+in[1]); pI(out,t.t_);pI(out+2,t.t2_);pI(out+4,t.t3_);pI(out+6,t.t4_);pI(out+8,t.t5_);pI(out+10,t.t6_); t.setValue(in[1],in[0]+in[1]); pI(out+12,t.t_);pI(out+14,t.t2_);pI(out+16,t.t3_);pI(out+18,t.t4_);pI(out+20,t.t5_);pI(out+22,t.t6_); }
PROBE spec_tiset(const double*in,double*out){ double l=1,h=1,m=1; for(int k=0;k<6;++k){ l*=in[0]; h*=in[0]+in[1]; m*=in[1]; out[2*k]=l; out[2*k+1]=h; out[12+2*k]=m; out[13+2*k]=h; } }
//@ tmlin what="TaylorModel +, -, unary -, numbers" assume="in[0]>=0,in[1]>=0"
PROBE impl_tmlin(const double*in,double*out){ TimeInterval<double> t(in[0],in[0]+in[1]); auto s=sp(t); TM a(in[2],in[3],in[4],in[5],I(in[6],in[7]),s), b(in[8],in[9],in[10],in[11],I(in[12],in[13]),s); ptm(out,a+b); ptm(out+6,a-b); ptm(out+12,-a); TM c=a; c+=b; ptm(out+18,c); c=a; c-=b; ptm(out+24,c); ptm(out+30,a+in[14]); ptm(out+36,a-in[14]); c=a; c+=in[14]; ptm(out+42,c); c=a; c-=in[14]; ptm(out+48,c); ptm(out+54,in[14]+a); ptm(out+60,in[14]-a); c.setZero(); ptm(out+66,c); ptm(out+72,TM(in[14],s)); ptm(out+78,TM(s)); generateTaylorModelForLinearFunc(a,in[8],in[9]); ptm(out+84,a); double cf[4]={in[2],in[3],in[4],in[5]}; ptm(out+90,TM(cf,I(in[6],in[7]),s)); }
PROBE spec_tmlin(const double*in,double*out){ for(int k=0;k<96;++k) out[k]=0; for(int k=0;k<4;++k){ double a=in[2+k],b=in[8+k],d=k==0?in[14]:0; out[k]=a+b; out[6+k]=a-b; out[12+k]=-a; out[18+k]=a+b; out[24+k]=a-b; out[30+k]=a+d; out[36+k]=a-d; out[42+k]=a+d; out[48+k]=a-d; out[54+k]=a+d; out[60+k]=d-a; out[90+k]=a; } const double*r=in+6,*q=in+12; sadd(r,q,out+4); ssub(r,q,out+10); out[16]=-r[1];out[17]=-r[0]; sadd(r,q,out+22); ssub(r,q,out+28); for(int k=0;k<4;++k){ out[34+6*k]=r[0]; out[35+6*k]=r[1]; } out[58]=r[0];out[59]=r[1]; out[64]=-r[1]; out[65]=-r[0]; out[72]=in[14]; out[84]=in[8]; out[85]=in[9]; out[94]=r[0]; out[95]=r[1]; }
#define TSC(NAME,SG) PROBE impl_tmscl##NAME(const double*in,double*out){ TimeInterval<double> t(0,1); auto s=sp(t); double d=SG*in[6]; TM a(in[0],in[1],in[2],in[3],I(in[4],in[4]+in[5]),s); ptm(out,a*d); TM c=a; c*=d; ptm(out+6,c); ptm(out+12,d*a); } \
PROBE spec_tmscl##NAME(const double*in,double*out){ double d=SG*in[6]; double r[2]={in[4],in[4]+in[5]}; for(int j=0;j<18;j+=6){ for(int k=0;k<4;++k) out[j+k]=in[k]*d; sscl(r,d,out+j+4); } }
//@ tmsclp what="TaylorModel scaled by a non-negative number" assume="in[5]>=0,in[6]>=0"
TSC(p,1)
//@ tmscln what="TaylorModel scaled by a negative number" assume="in[5]>=0,in[6]>=0"
TSC(n,-1)
// product: sign patterns SA, SB of the coefficients c1..c3 (bit set: negative), remainders in classes RA, RB
static inline double sg(int m,int k,double v){ return (m>>k)&1?-v:v; }
#define TMUL(NAME,SA,SB,RA,RB) \
PROBE impl_tmmul##NAME(const double*in,double*out){ TimeInterval<double> t(in[0],in[0]+in[1]); auto s=sp(t); double ra[2],rb[2]; RA(in+10,ra); RB(in+12,rb); TM a(sg(SA,0,in[2]),sg(SA,1,in[3]),sg(SA,2,in[4]),sg(SA,3,in[5]),I(ra[0],ra[1]),s), b(sg(SB,0,in[6]),sg(SB,1,in[7]),sg(SB,2,in[8]),sg(SB,3,in[9]),I(rb[0],rb[1]),s); ptm(out,a*b); a*=b; ptm(out+6,a); } \
PROBE spec_tmmul##NAME(const double*in,double*out){ double ra[2],rb[2]; RA(in+10,ra); RB(in+12,rb); double a[4],b[4],T[7][2]; T[0][0]=T[0][1]=1; for(int k=1;k<7;++k){ T[k][0]=T[k-1][0]*in[0]; T[k][1]=T[k-1][1]*(in[0]+in[1]); } for(int k=0;k<4;++k){ a[k]=sg(SA,k,in[2+k]); b[k]=sg(SB,k,in[6+k]); } double c[7]={0,0,0,0,0,0,0}; for(int i=0;i<4;++i)for(int j=0;j<4;++j) c[i+j]+=a[i]*b[j]; \
  double r[2],x[2],y[2]; smul(ra,rb,r); for(int k=4;k<7;++k){ sscl(T[k],c[k],x); sadd(r,x,r); } double fa[2]={0,0},fb[2]={0,0}; for(int k=0;k<4;++k){ sscl(T[k],a[k],x); sadd(fa,x,fa); sscl(T[k],b[k],x); sadd(fb,x,fb); } smul(fa,rb,x); smul(fb,ra,y); sadd(r,x,r); sadd(r,y,r); for(int j=0;j<12;j+=6){ for(int k=0;k<4;++k) out[j+k]=c[k]; out[j+4]=r[0]; out[j+5]=r[1]; } }
#define T14 "in[0]>=0,..."
//@ tmmulA what="TaylorModel product, all coefficients non-negative" assume="in[0]>0,in[1]>0,in[2]>0,in[3]>0,in[4]>0,in[5]>0,in[6]>0,in[7]>0,in[8]>0,in[9]>0,in[10]>0,in[11]>0,in[12]>0,in[13]>0"
TMUL(A,0,0,M,M)
//@ tmmulB what="TaylorModel product, first operand negative" assume="in[0]>0,in[1]>0,in[2]>0,in[3]>0,in[4]>0,in[5]>0,in[6]>0,in[7]>0,in[8]>0,in[9]>0,in[10]>0,in[11]>0,in[12]>0,in[13]>0"
TMUL(B,15,0,P,N)
//@ tmmulC what="TaylorModel product, second operand negative" assume="in[0]>0,in[1]>0,in[2]>0,in[3]>0,in[4]>0,in[5]>0,in[6]>0,in[7]>0,in[8]>0,in[9]>0,in[10]>0,in[11]>0,in[12]>0,in[13]>0"
TMUL(C,0,15,N,P)
//@ tmmulD what="TaylorModel product, both operands negative" assume="in[0]>0,in[1]>0,in[2]>0,in[3]>0,in[4]>0,in[5]>0,in[6]>0,in[7]>0,in[8]>0,in[9]>0,in[10]>0,in[11]>0,in[12]>0,in[13]>0"
TMUL(D,15,15,P,P)
// ranges: signs of c1..c3 by pattern
#define TBD(NAME,SA) \
PROBE impl_tmbound##NAME(const double*in,double*out){ TimeInterval<double> t(in[0],in[0]+in[1]); auto s=sp(t); TM a(in[2],sg(SA,1,in[3]),sg(SA,2,in[4]),sg(SA,3,in[5]),I(in[6],in[6]+in[7]),s); pI(out,a.getBound()); pI(out+2,a.getBound(in[8])); pI(out+4,a.getBound(in[9],in[9]+in[10])); } \
PROBE spec_tmbound##NAME(const double*in,double*out){ double c[4]={in[2],sg(SA,1,in[3]),sg(SA,2,in[4]),sg(SA,3,in[5])}; for(int j=0;j<3;++j){ double lo=j==0?in[0]:j==1?in[8]:in[9], hi=j==0?in[0]+in[1]:j==1?in[8]:in[9]+in[10]; double r[2]={c[0]+in[6],c[0]+in[6]+in[7]}; double l=1,h=1; for(int k=1;k<4;++k){ l*=lo; h*=hi; double T[2]={l,h},x[2]; sscl(T,c[k],x); sadd(r,x,r); } out[2*j]=r[0]; out[2*j+1]=r[1]; } }
//@ tmboundA what="TaylorModel::getBound" assume="in[0]>=0,in[1]>=0,in[3]>=0,in[4]>=0,in[5]>=0,in[7]>=0,in[8]>=0,in[9]>=0,in[10]>=0"
TBD(A,0)
//@ tmboundB what="TaylorModel::getBound" assume="in[0]>=0,in[1]>=0,in[3]>=0,in[4]>=0,in[5]>=0,in[7]>=0,in[8]>=0,in[9]>=0,in[10]>=0"
TBD(B,15)
//@ tmboundC what="TaylorModel::getBound" assume="in[0]>=0,in[1]>=0,in[3]>=0,in[4]>=0,in[5]>=0,in[7]>=0,in[8]>=0,in[9]>=0,in[10]>=0"
TBD(C,4)
// exact range of the polynomial plus the remainder (over the whole time interval)
static inline double ev(const double*c,double t){ return c[0]+t*(c[1]+t*(c[2]+t*c[3])); }
//@ tmtightq what="TaylorModel::getTightBound, quadratic" assume="in[1]>=0,in[6]>=0" let="in[5]=0"
PROBE impl_tmtightq(const double*in,double*out){ TimeInterval<double> t; t.t_.setValue(in[0],in[0]+in[1]); auto s=sp(t); TM a(in[2],in[3],in[4],0,I(in[7],in[7]+in[6]),s); pI(out,a.getTightBound()); }
PROBE spec_tmtightq(const double*in,double*out){ double c[4]={in[2],in[3],in[4],0}; double l=ev(c,in[0]),h=ev(c,in[0]+in[1]); double lo=mn(l,h),hi=mx(l,h); if(in[4]!=0){ double a=-in[3]/(2*in[4]); if(in[0]<=a&&a<=in[0]+in[1]){ double q=ev(c,a); lo=mn(lo,q); hi=mx(hi,q); } } out[0]=lo+in[7]; out[1]=hi+in[7]+in[6]; }
//@ tmtightc ties=ignore what="TaylorModel::getTightBound, cubic" assume="in[1]>0,in[5]>0"
PROBE impl_tmtightc(const double*in,double*out){ TimeInterval<double> t; t.t_.setValue(in[0],in[0]+in[1]); auto s=sp(t); TM a(in[2],in[3],in[4],in[5],I(in[7],in[7]+in[6]),s); pI(out,a.getTightBound()); }
PROBE spec_tmtightc(const double*in,double*out){ const double*c=in+2; double l=ev(c,in[0]),h=ev(c,in[0]+in[1]); double lo=mn(l,h),hi=mx(l,h); double d=c[2]*c[2]-3*c[1]*c[3]; if(d>=0){ for(int k=0;k<2;++k){ double a=(k?-c[2]+rt(d):-c[2]-rt(d))/(3*c[3]); if(in[0]<=a&&a<=in[0]+in[1]){ double q=ev(c,a); if(q<lo) lo=q; else if(q>hi) hi=q; } } } out[0]=lo+in[7]; out[1]=hi+in[7]+in[6]; }
// trigonometric models: third-order expansion about the centre of the time interval and the Lagrange remainder
#define TRIG(NAME,FUN,F,DF,SH,SG) \
PROBE impl_##NAME(const double*in,double*out){ TimeInterval<double> t; t.t_.setValue(in[0],in[0]+in[1]); auto s=sp(t); TM a(s); a.remainder().setValue(in[4],in[5]); FUN(a,SG*in[2],in[3]); ptm(out,a); } \
PROBE spec_##NAME(const double*in,double*out){ double w=SG*in[2],q=in[3],a=in[0]+in[1]/2; double f0,f1,f2,f3; F; f2=-w*w*f0; f3=-w*w*f1; out[0]=f0-a*f1+a*a/2*f2-a*a*a/6*f3; out[1]=f1-a*f2+a*a/2*f3; out[2]=(f2-a*f3)/2; out[3]=f3/6; \
  double b=in[0]+in[1]; double l=DF(in[0]*w+q),h=DF(b*w+q); double lo=mn(l,h)-1e-15, hi=mx(l,h)+1e-15; double k1=(in[0]*w+q)/(2*3.14159265358979323846)-SH,k2=(b*w+q)/(2*3.14159265358979323846)-SH; double s=mn(k1,k2),e=mx(k1,k2); if(__builtin_ceil(e)-__builtin_floor(s)>1) hi=1; if(__builtin_ceil(e-0.5)-__builtin_floor(s-0.5)>1) lo=-1; double m=in[1]/2; double f=w*w*w*w*m*m*m*m/24; lo*=f; hi*=f; out[4]=mn(lo,0); out[5]=mx(hi,0); }
//@ cosp what="generateTaylorModelForCosFunc, positive frequency" assume="in[1]>0,in[2]>0"
TRIG(cosp,generateTaylorModelForCosFunc,f0=cos(w*a+q);f1=-w*sin(w*a+q),cos,0,1)
//@ cosn what="generateTaylorModelForCosFunc, negative frequency" assume="in[1]>0,in[2]>0"
TRIG(cosn,generateTaylorModelForCosFunc,f0=cos(w*a+q);f1=-w*sin(w*a+q),cos,0,-1)
//@ sinp what="generateTaylorModelForSinFunc, positive frequency" assume="in[1]>0,in[2]>0"
TRIG(sinp,generateTaylorModelForSinFunc,f0=sin(w*a+q);f1=w*cos(w*a+q),sin,0.25,1)
//@ sinn what="generateTaylorModelForSinFunc, negative frequency" assume="in[1]>0,in[2]>0"
TRIG(sinn,generateTaylorModelForSinFunc,f0=sin(w*a+q);f1=w*cos(w*a+q),sin,0.25,-1)
#define TRIG0(NAME,FUN,F) PROBE impl_##NAME(const double*in,double*out){ TimeInterval<double> t; t.t_.setValue(in[0],in[0]+in[1]); auto s=sp(t); TM a(s); a.remainder().setValue(in[4],in[5]); FUN(a,0.0,in[3]); ptm(out,a); } \
PROBE spec_##NAME(const double*in,double*out){ out[0]=F(in[3]); for(int k=1;k<6;++k) out[k]=0; }
//@ cos0 what="generateTaylorModelForCosFunc, zero frequency" assume="in[1]>0"
TRIG0(cos0,generateTaylorModelForCosFunc,cos)
//@ sin0 what="generateTaylorModelForSinFunc, zero frequency" assume="in[1]>0"
TRIG0(sin0,generateTaylorModelForSinFunc,sin)
// ---- Taylor vectors and matrices: structure, on models with zero quadratic/cubic part and zero remainder
static inline TM lm(const double*in,int k,const std::shared_ptr<TimeInterval<double>>&s){ return TM(in[2*k],in[2*k+1],0,0,I(0,0),s); }
static inline TV tv(const double*in,const std::shared_ptr<TimeInterval<double>>&s){ return TV(lm(in,0,s),lm(in,1,s),lm(in,2,s)); }
static inline void ptl(double*o,const TM&m){ for(int i=0;i<3;++i) o[i]=m.coeff(i); }
static inline void ptv(double*o,const TV&v){ for(int i=0;i<3;++i) ptl(o+3*i,v[i]); }
static inline void lmul(const double*a,const double*b,double*o){ o[0]=a[0]*b[0]; o[1]=a[0]*b[1]+a[1]*b[0]; o[2]=a[1]*b[1]; }
static inline void lsc(const double*a,double d,double*o){ o[0]=a[0]*d; o[1]=a[1]*d; o[2]=0; }
static inline void a3(double*o,const double*x,double f){ for(int i=0;i<3;++i) o[i]+=f*x[i]; }
//@ tvec what="TVector3 operations"
PROBE impl_tvec(const double*in,double*out){ TimeInterval<double> t(0,1); auto s=sp(t); TV a=tv(in,s),b=tv(in+6,s); V3 v=gv(in+12); TM m=lm(in,7,s); ptv(out,a+b); ptv(out+9,a-b); ptv(out+18,-a); TV c=a; c+=b; ptv(out+27,c); c=a; c-=b; ptv(out+36,c); ptv(out+45,a+v); ptv(out+54,a-v); ptv(out+63,v+a); ptv(out+72,v-a); c=a; c+=v; ptv(out+81,c); c=a; c-=v; ptv(out+90,c); c.setZero(); ptv(out+99,c); ptv(out+108,TV(v,s)); generateTVector3ForLinearFunc(c,gv(in),gv(in+3)); ptv(out+117,c); }
PROBE spec_tvec(const double*in,double*out){ for(int k=0;k<126;++k) out[k]=0; for(int i=0;i<3;++i)for(int j=0;j<2;++j){ double a=in[2*i+j],b=in[6+2*i+j],v=j?0:in[12+i]; double*o=out+3*i+j; o[0]=a+b;o[9]=a-b;o[18]=-a;o[27]=a+b;o[36]=a-b;o[45]=a+v;o[54]=a-v;o[63]=a+v;o[72]=v-a;o[81]=a+v;o[90]=a-v;o[108]=v;o[117]=in[i+3*j]; } }
//@ tvprod what="TVector3 products"
PROBE impl_tvprod(const double*in,double*out){ TimeInterval<double> t(0,1); auto s=sp(t); TV a=tv(in,s),b=tv(in+6,s); V3 v=gv(in+12); ptl(out,a.dot(b)); ptv(out+3,a.cross(b)); ptl(out+12,a.dot(v)); ptv(out+15,a.cross(v)); ptl(out+24,a.squareLength()); TM m=lm(in,3,s); ptv(out+27,a*m); TV c=a; c*=m; ptv(out+36,c); ptv(out+45,a*in[12]); c=a; c*=in[12]; ptv(out+54,c); ptv(out+63,v*m); }
PROBE spec_tvprod(const double*in,double*out){ for(int k=0;k<72;++k) out[k]=0; double x[3]; for(int i=0;i<3;++i){ int j=(i+1)%3,k=(i+2)%3; const double*a=in,*b=in+6,*v=in+12; lmul(a+2*i,b+2*i,x); a3(out,x,1); lmul(a+2*j,b+2*k,x); a3(out+3+3*i,x,1); lmul(a+2*k,b+2*j,x); a3(out+3+3*i,x,-1); lsc(a+2*i,v[i],x); a3(out+12,x,1); lsc(a+2*j,v[k],x); a3(out+15+3*i,x,1); lsc(a+2*k,v[j],x); a3(out+15+3*i,x,-1); lmul(a+2*i,a+2*i,x); a3(out+24,x,1); lmul(a+2*i,b,x); a3(out+27+3*i,x,1); a3(out+36+3*i,x,1); lsc(a+2*i,v[0],x); a3(out+45+3*i,x,1); a3(out+54+3*i,x,1); lsc(b,v[i],x); a3(out+63+3*i,x,1); } }
static inline TMx tmx(const double*in,const std::shared_ptr<TimeInterval<double>>&s){ return TMx(tv(in,s),tv(in+6,s),tv(in+12,s)); }
static inline void ptx(double*o,const TMx&m){ for(int i=0;i<3;++i)for(int j=0;j<3;++j) ptl(o+9*i+3*j,m(i,j)); }
//@ tmat what="TMatrix3 sums"
PROBE impl_tmat(const double*in,double*out){ TimeInterval<double> t(0,1); auto s=sp(t); TMx a=tmx(in,s),b=tmx(in+18,s); M3 m=gm(in+36); ptx(out,a+b); ptx(out+27,a-b); ptx(out+54,-a); TMx c=a; c+=b; ptx(out+81,c); c=a; c-=b; ptx(out+108,c); ptx(out+135,a+m); ptx(out+162,a-m); c=a; c+=m; ptx(out+189,c); c=a; c-=m; ptx(out+216,c); ptx(out+243,m+a); ptx(out+270,m-a); ptx(out+297,TMx(m,s)); c.setIdentity(); ptx(out+324,c); c.setZero(); ptx(out+351,c); for(int k=0;k<3;++k){ ptv(out+378+9*k,a.getColumn(k)); ptv(out+405+9*k,a.getRow(k)); } }
PROBE spec_tmat(const double*in,double*out){ for(int k=0;k<432;++k) out[k]=0; for(int i=0;i<3;++i)for(int j=0;j<3;++j)for(int d=0;d<2;++d){ double a=in[6*i+2*j+d],b=in[18+6*i+2*j+d],m=d?0:in[36+3*i+j]; double*o=out+9*i+3*j+d; o[0]=a+b;o[27]=a-b;o[54]=-a;o[81]=a+b;o[108]=a-b;o[135]=a+m;o[162]=a-m;o[189]=a+m;o[216]=a-m;o[243]=a+m;o[270]=m-a;o[297]=m; if(!d) o[324]=i==j; out[378+9*j+3*i+d]=a; out[405+9*i+3*j+d]=a; } }
//@ tmprod what="TMatrix3 products"
PROBE impl_tmprod(const double*in,double*out){ TimeInterval<double> t(0,1); auto s=sp(t); TMx a=tmx(in,s),b=tmx(in+18,s); ptx(out,a*b); TMx c=a; c*=b; ptx(out+27,c); M3 m=gm(in+36); ptx(out+54,a*m); c=a; c*=m; ptx(out+81,c); ptv(out+108,a*gv(in+36)); ptv(out+117,a*tv(in+18,s)); TM q=lm(in,9,s); ptx(out+126,a*q); c=a; c*=q; ptx(out+153,c); ptx(out+180,a*in[36]); c=a; c*=in[36]; ptx(out+207,c); ptx(out+234,q*a); ptx(out+261,in[36]*a); ptx(out+288,m*q); ptx(out+315,q*m); }
PROBE spec_tmprod(const double*in,double*out){ for(int k=0;k<342;++k) out[k]=0; double x[3]; for(int i=0;i<3;++i){ for(int j=0;j<3;++j){ int e=9*i+3*j; for(int k=0;k<3;++k){ lmul(in+6*i+2*k,in+18+6*k+2*j,x); a3(out+e,x,1); a3(out+27+e,x,1); lsc(in+6*i+2*k,in[36+3*k+j],x); a3(out+54+e,x,1); a3(out+81+e,x,1); } lmul(in+6*i+2*j,in+18,x); a3(out+126+e,x,1); a3(out+153+e,x,1); a3(out+234+e,x,1); lsc(in+6*i+2*j,in[36],x); a3(out+180+e,x,1); a3(out+207+e,x,1); a3(out+261+e,x,1); lsc(in+18,in[36+3*i+j],x); a3(out+288+e,x,1); a3(out+315+e,x,1); } for(int k=0;k<3;++k){ lsc(in+6*i+2*k,in[36+k],x); a3(out+108+3*i,x,1); lmul(in+6*i+2*k,in+18+2*k,x); a3(out+117+3*i,x,1); } } }
//@ tvbound what="TVector3/TMatrix3 ranges are those of their entries" assume="in[0]>=0,in[1]>=0"
PROBE impl_tvbound(const double*in,double*out){ TimeInterval<double> t(in[0],in[0]+in[1]); auto s=sp(t); TV a; for(int k=0;k<3;++k) a[k]=TM(in[2+3*k],0,0,0,I(in[3+3*k],in[4+3*k]),s); TV z(a[1],a[2],a[0]),y(a[2],a[0],a[1]); piv(out,a.getBound()); piv(out+6,a.getBound(in[0])); piv(out+12,a.getBound(in[0],in[0]+in[1])); TMx m(a,z,y); pim(out+18,m.getBound()); pim(out+36,m.getBound(in[0])); pim(out+54,m.getBound(in[0],in[0]+in[1])); }
PROBE spec_tvbound(const double*in,double*out){ for(int k=0;k<3;++k) for(int d=0;d<2;++d){ double v=in[2+3*k]+in[3+3*k+d]; for(int j=0;j<3;++j) out[6*j+2*k+d]=v; for(int j=0;j<3;++j) for(int r=0;r<3;++r){ int c=(k+3-r)%3; out[18+18*j+6*r+2*c+d]=v; } } }
