// C14: motions between two poses.  Never executed; analysed as IR.
#include "probe.h"
#include "fcl/math/motion/interp_motion.h"
#include "fcl/math/motion/screw_motion.h"
#include "fcl/math/motion/translation_motion.h"
#include "fcl/math/motion/spline_motion.h"
#include "fcl/math/geometry.h"
using namespace fcl;
typedef InterpMotion<double> IMo; typedef ScrewMotion<double> SMo; typedef TranslationMotion<double> TMo; typedef SplineMotion<double> PMo;
typedef Eigen::AngleAxis<double> AA; typedef Eigen::Quaternion<double> Q;
static inline void pt(double*o,const T3&t){ M3 r=t.linear(); pm(o,r); V3 v=t.translation(); pv(o+9,v); }
#define BUF(T,m) alignas(T) char buf[sizeof(T)]; T&m=*(T*)buf
static inline void aa(const M3&R,double*ang,V3*ax){ AA a(R); *ang=a.angle(); *ax=a.axis(); if(*ang<0){ *ang=-*ang; *ax=-*ax; } }
// the two rotations: one arbitrary, the other a fixed axis permutation (MODE 1: first fixed, 2: second fixed)
static inline void rots(const double*in,int mode,double*o){ for(int k=0;k<24;++k) o[k]=in[k]; double P[9]={0,0,1,1,0,0,0,1,0}; for(int k=0;k<9;++k) o[(mode==1?0:12)+k]=P[k]; }
static inline void rots2(const double*in,int mode,double*o){ for(int k=0;k<24;++k) o[k]=in[k]; double P[9]={0,0,1,1,0,0,0,1,0}, C[9]={0.6,-0.8,0,0.8,0.6,0,0,0,1}; for(int k=0;k<9;++k){ o[k]=P[k]; o[12+k]=mode==2?P[k]:0; } if(mode==1) for(int i=0;i<3;++i)for(int j=0;j<3;++j) for(int k=0;k<3;++k) o[12+3*i+j]+=C[3*i+k]*P[3*k+j]; }
// ---- constructors
static inline void pim_(double*out,const IMo&m){ pt(out,m.tf1); pt(out+12,m.tf2); pt(out+24,m.tf); pv(out+36,m.linear_vel); out[39]=m.angular_vel; pv(out+40,m.angular_axis); pv(out+43,m.reference_p); out[46]=m.time_interval_->t_[0]; out[47]=m.time_interval_->t_[1]; }
static inline void sim_(double*out,const double*in,const double*ref){ T3 a=gt(in),b=gt(in+12); pt(out,a); pt(out+12,b); pt(out+24,a); double r[3]={ref?ref[0]:0,ref?ref[1]:0,ref?ref[2]:0},p[3],q[3]; app(in,r,p); app(in+12,r,q); for(int i=0;i<3;++i) out[36+i]=q[i]-p[i]; double g; V3 x; M3 d=b.linear()*a.linear().transpose(); aa(d,&g,&x); out[39]=g; pv(out+40,x); for(int i=0;i<3;++i) out[43+i]=r[i]; out[46]=0; out[47]=1; }
//@ ictor_mats1 what="InterpMotion(R1,T1,R2,T2)"
PROBE impl_ictor_mats1(const double*in0,double*out){ double in[30]; rots(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(IMo,m); new(buf) IMo(gm(in),gv(in+9),gm(in+12),gv(in+21)); pim_(out,m); }
PROBE spec_ictor_mats1(const double*in0,double*out){ double in[30]; rots(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  sim_(out,in,0); }
//@ ictor_mats2 what="InterpMotion(R1,T1,R2,T2)"
PROBE impl_ictor_mats2(const double*in0,double*out){ double in[30]; rots(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(IMo,m); new(buf) IMo(gm(in),gv(in+9),gm(in+12),gv(in+21)); pim_(out,m); }
PROBE spec_ictor_mats2(const double*in0,double*out){ double in[30]; rots(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  sim_(out,in,0); }
//@ ictor_tf1 what="InterpMotion(tf1,tf2)"
PROBE impl_ictor_tf1(const double*in0,double*out){ double in[30]; rots(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(IMo,m); new(buf) IMo(gt(in),gt(in+12)); pim_(out,m); }
PROBE spec_ictor_tf1(const double*in0,double*out){ double in[30]; rots(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  sim_(out,in,0); }
//@ ictor_tf2 what="InterpMotion(tf1,tf2)"
PROBE impl_ictor_tf2(const double*in0,double*out){ double in[30]; rots(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(IMo,m); new(buf) IMo(gt(in),gt(in+12)); pim_(out,m); }
PROBE spec_ictor_tf2(const double*in0,double*out){ double in[30]; rots(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  sim_(out,in,0); }
//@ ictor_mats_ref1 what="InterpMotion(R1,T1,R2,T2,O)"
PROBE impl_ictor_mats_ref1(const double*in0,double*out){ double in[30]; rots(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(IMo,m); new(buf) IMo(gm(in),gv(in+9),gm(in+12),gv(in+21),gv(in+24)); pim_(out,m); }
PROBE spec_ictor_mats_ref1(const double*in0,double*out){ double in[30]; rots(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  sim_(out,in,in+24); }
//@ ictor_mats_ref2 what="InterpMotion(R1,T1,R2,T2,O)"
PROBE impl_ictor_mats_ref2(const double*in0,double*out){ double in[30]; rots(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(IMo,m); new(buf) IMo(gm(in),gv(in+9),gm(in+12),gv(in+21),gv(in+24)); pim_(out,m); }
PROBE spec_ictor_mats_ref2(const double*in0,double*out){ double in[30]; rots(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  sim_(out,in,in+24); }
//@ ictor_tf_ref1 what="InterpMotion(tf1,tf2,O)"
PROBE impl_ictor_tf_ref1(const double*in0,double*out){ double in[30]; rots(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(IMo,m); new(buf) IMo(gt(in),gt(in+12),gv(in+24)); pim_(out,m); }
PROBE spec_ictor_tf_ref1(const double*in0,double*out){ double in[30]; rots(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  sim_(out,in,in+24); }
//@ ictor_tf_ref2 what="InterpMotion(tf1,tf2,O)"
PROBE impl_ictor_tf_ref2(const double*in0,double*out){ double in[30]; rots(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(IMo,m); new(buf) IMo(gt(in),gt(in+12),gv(in+24)); pim_(out,m); }
PROBE spec_ictor_tf_ref2(const double*in0,double*out){ double in[30]; rots(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  sim_(out,in,in+24); }
//@ ictor_def what="InterpMotion(): the motion that stays at the identity"
PROBE impl_ictor_def(const double*in,double*out){ BUF(IMo,m); new(buf) IMo(); pim_(out,m); out[40]=out[41]=out[42]=0; }
PROBE spec_ictor_def(const double*in,double*out){ for(int k=0;k<48;++k) out[k]=0; for(int k=0;k<3;++k) for(int i=0;i<3;++i) out[12*k+4*i]=1; out[47]=1; }
// ---- integration: pose at time t from the fields only (hence independent of earlier integrations)
static inline void iset(IMo&m,const double*in){ m.tf1=gt(in); m.linear_vel=gv(in+12); m.angular_vel=in[15]; m.angular_axis=gv(in+16); m.reference_p=gv(in+19); m.tf=gt(in+23); }
static inline void posei(const double*in,double t,double*out,int alt){ M3 R; if(alt) R=AA(t*in[15],gv(in+16)).toRotationMatrix()*gm(in); else R=(Q(AA(t*in[15],gv(in+16)))*Q(gm(in))).toRotationMatrix(); pm(out,R); double p[3],q[3],r[9]; for(int i=0;i<9;++i) r[i]=out[i]; app(in,in+19,p); rot(r,in+19,q); for(int i=0;i<3;++i) out[9+i]=in[12+i]*t+p[i]-q[i]; }
#define INTEG(NAME,TEXPR,CLAMP) PROBE impl_iinteg##NAME(const double*in,double*out){ BUF(IMo,m); iset(m,in); out[12]=m.IMo::integrate(TEXPR); T3 r; m.IMo::getCurrentTransform(r); pt(out,r); } \
PROBE spec_iinteg##NAME(const double*in,double*out){ posei(in,CLAMP,out,0); out[12]=1; } PROBE alt_iinteg##NAME(const double*in,double*out){ posei(in,CLAMP,out,1); out[12]=1; }
//@ iintegT what="InterpMotion::integrate" assume="1-in[22]>=0"
INTEG(T,in[22],in[22])
//@ iintegC what="InterpMotion::integrate past the end" assume="in[22]-1>0"
INTEG(C,in[22],1)
//@ iinteg2 what="InterpMotion::integrate after an earlier integration" assume="1-in[22]>=0"
PROBE impl_iinteg2(const double*in,double*out){ BUF(IMo,m); iset(m,in); m.IMo::integrate(in[35]); m.IMo::integrate(in[22]); T3 r; m.IMo::getCurrentTransform(r); pt(out,r); }
PROBE spec_iinteg2(const double*in,double*out){ posei(in,in[22],out,0); }
PROBE alt_iinteg2(const double*in,double*out){ posei(in,in[22],out,1); }
//@ iget what="InterpMotion accessors"
PROBE impl_iget(const double*in,double*out){ BUF(IMo,m); iset(m,in); pv(out,m.getReferencePoint()); pv(out+3,m.getAngularAxis()); out[6]=m.getAngularVelocity(); pv(out+7,m.getLinearVelocity()); T3 r; m.IMo::getCurrentTransform(r); pt(out+10,r); }
PROBE spec_iget(const double*in,double*out){ for(int i=0;i<3;++i){ out[i]=in[19+i]; out[3+i]=in[16+i]; out[7+i]=in[12+i]; } out[6]=in[15]; for(int i=0;i<12;++i) out[10+i]=in[23+i]; }
// ---- screw motion
static inline void psm_(double*out,const SMo&m){ pt(out,m.tf1); pt(out+12,m.tf2); pt(out+24,m.tf); out[36]=m.time_interval_->t_[0]; out[37]=m.time_interval_->t_[1]; }
//@ sctor_mats1 what="ScrewMotion(R1,T1,R2,T2) poses"
PROBE impl_sctor_mats1(const double*in0,double*out){ double in[30]; rots(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(SMo,m); new(buf) SMo(gm(in),gv(in+9),gm(in+12),gv(in+21)); psm_(out,m); }
PROBE spec_sctor_mats1(const double*in0,double*out){ double in[30]; rots(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  T3 a=gt(in),b=gt(in+12); pt(out,a); pt(out+12,b); pt(out+24,a); out[36]=0; out[37]=1; }
//@ sctor_mats2 what="ScrewMotion(R1,T1,R2,T2) poses"
PROBE impl_sctor_mats2(const double*in0,double*out){ double in[30]; rots(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(SMo,m); new(buf) SMo(gm(in),gv(in+9),gm(in+12),gv(in+21)); psm_(out,m); }
PROBE spec_sctor_mats2(const double*in0,double*out){ double in[30]; rots(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  T3 a=gt(in),b=gt(in+12); pt(out,a); pt(out+12,b); pt(out+24,a); out[36]=0; out[37]=1; }
//@ sctor_tf1 what="ScrewMotion(tf1,tf2) poses"
PROBE impl_sctor_tf1(const double*in0,double*out){ double in[30]; rots(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(SMo,m); new(buf) SMo(gt(in),gt(in+12)); psm_(out,m); }
PROBE spec_sctor_tf1(const double*in0,double*out){ double in[30]; rots(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  T3 a=gt(in),b=gt(in+12); pt(out,a); pt(out+12,b); pt(out+24,a); out[36]=0; out[37]=1; }
//@ sctor_tf2 what="ScrewMotion(tf1,tf2) poses"
PROBE impl_sctor_tf2(const double*in0,double*out){ double in[30]; rots(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(SMo,m); new(buf) SMo(gt(in),gt(in+12)); psm_(out,m); }
PROBE spec_sctor_tf2(const double*in0,double*out){ double in[30]; rots(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  T3 a=gt(in),b=gt(in+12); pt(out,a); pt(out+12,b); pt(out+24,a); out[36]=0; out[37]=1; }
// screw parameters: angle and axis of the relative rotation; the axis point p and pitch reproduce the end position
//@ sparam1 what="ScrewMotion::computeScrewParameter: angle, axis, pitch and axis point"
PROBE impl_sparam1(const double*in0,double*out){ double in[30]; rots2(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(SMo,m); m.tf1=gt(in); m.tf2=gt(in+12); m.computeScrewParameter(); out[0]=m.angular_vel; V3 a=m.axis*m.angular_vel; pv(out+1,a); V3 l=m.axis*m.linear_vel; pv(out+4,l); pv(out+7,m.p); }
PROBE spec_sparam1(const double*in0,double*out){ double in[30]; rots2(in0,1,in); for(int k=24;k<30;++k) in[k]=in0[k];  double g; V3 x; M3 d=gm(in+12)*gm(in).transpose(); aa(d,&g,&x); double o[3]={in[21]-in[9],in[22]-in[10],in[23]-in[11]}; if(g<1e-10){ for(int i=0;i<10;++i) out[i]=0; for(int i=0;i<3;++i){ out[4+i]=o[i]; out[7+i]=in[9+i]; } } else { out[0]=g; for(int i=0;i<3;++i) out[1+i]=x[i]*g; double h=o[0]*x[0]+o[1]*x[1]+o[2]*x[2]; double c[3]={x[1]*o[2]-x[2]*o[1],x[2]*o[0]-x[0]*o[2],x[0]*o[1]-x[1]*o[0]}; for(int i=0;i<3;++i){ out[4+i]=x[i]*h; out[7+i]=(in[9+i]+in[21+i]+c[i]*(1.0/tan(g/2)))*0.5; } } }
//@ sparam2 ties=ignore what="ScrewMotion::computeScrewParameter: angle, axis, pitch and axis point"
PROBE impl_sparam2(const double*in0,double*out){ double in[30]; rots2(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  BUF(SMo,m); m.tf1=gt(in); m.tf2=gt(in+12); m.computeScrewParameter(); out[0]=m.angular_vel; V3 a=m.axis*m.angular_vel; pv(out+1,a); V3 l=m.axis*m.linear_vel; pv(out+4,l); pv(out+7,m.p); }
PROBE spec_sparam2(const double*in0,double*out){ double in[30]; rots2(in0,2,in); for(int k=24;k<30;++k) in[k]=in0[k];  double g; V3 x; M3 d=gm(in+12)*gm(in).transpose(); aa(d,&g,&x); double o[3]={in[21]-in[9],in[22]-in[10],in[23]-in[11]}; if(g<1e-10){ for(int i=0;i<10;++i) out[i]=0; for(int i=0;i<3;++i){ out[4+i]=o[i]; out[7+i]=in[9+i]; } } else { out[0]=g; for(int i=0;i<3;++i) out[1+i]=x[i]*g; double h=o[0]*x[0]+o[1]*x[1]+o[2]*x[2]; double c[3]={x[1]*o[2]-x[2]*o[1],x[2]*o[0]-x[0]*o[2],x[0]*o[1]-x[1]*o[0]}; for(int i=0;i<3;++i){ out[4+i]=x[i]*h; out[7+i]=(in[9+i]+in[21+i]+c[i]*(1.0/tan(g/2)))*0.5; } } }
static inline void sset(SMo&m,const double*in){ m.tf1=gt(in); m.linear_vel=in[12]; m.angular_vel=in[15]; m.axis=gv(in+16); m.p=gv(in+19); m.tf=gt(in+23); }
static inline void poses(const double*in,double t,double*out,int alt){ M3 R,D; if(alt){ D=AA(t*in[15],gv(in+16)).toRotationMatrix(); R=D*gm(in); } else { Q q(AA(t*in[15],gv(in+16))); R=(q*Q(gm(in))).toRotationMatrix(); } pm(out,R); V3 v=gv(in+9)-gv(in+19); V3 w; if(alt==1) w=D*v; else { Q q(AA(t*in[15],gv(in+16))); w=q*v; } for(int i=0;i<3;++i) out[9+i]=in[19+i]+in[16+i]*t*in[12]+w[i]; }
#define SINTEG(NAME,TEXPR,CLAMP) PROBE impl_sinteg##NAME(const double*in,double*out){ BUF(SMo,m); sset(m,in); out[12]=m.SMo::integrate(TEXPR); T3 r; m.SMo::getCurrentTransform(r); pt(out,r); } \
PROBE spec_sinteg##NAME(const double*in,double*out){ poses(in,CLAMP,out,0); out[12]=1; } PROBE alt1_sinteg##NAME(const double*in,double*out){ poses(in,CLAMP,out,1); out[12]=1; } PROBE alt2_sinteg##NAME(const double*in,double*out){ poses(in,CLAMP,out,2); out[12]=1; }
//@ sintegT what="ScrewMotion::integrate" assume="1-in[22]>=0"
SINTEG(T,in[22],in[22])
//@ sintegC what="ScrewMotion::integrate past the end" assume="in[22]-1>0"
SINTEG(C,in[22],1)
//@ sinteg2 what="ScrewMotion::integrate after an earlier integration" assume="1-in[22]>=0"
PROBE impl_sinteg2(const double*in,double*out){ BUF(SMo,m); sset(m,in); m.SMo::integrate(in[35]); m.SMo::integrate(in[22]); T3 r; m.SMo::getCurrentTransform(r); pt(out,r); }
PROBE spec_sinteg2(const double*in,double*out){ poses(in,in[22],out,0); }
PROBE alt1_sinteg2(const double*in,double*out){ poses(in,in[22],out,1); }
PROBE alt2_sinteg2(const double*in,double*out){ poses(in,in[22],out,2); }
//@ sget what="ScrewMotion accessors"
PROBE impl_sget(const double*in,double*out){ BUF(SMo,m); sset(m,in); pv(out,m.getAxisOrigin()); pv(out+3,m.getAxis()); out[6]=m.getAngularVelocity(); out[7]=m.getLinearVelocity(); T3 r; m.SMo::getCurrentTransform(r); pt(out+8,r); }
PROBE spec_sget(const double*in,double*out){ for(int i=0;i<3;++i){ out[i]=in[19+i]; out[3+i]=in[16+i]; } out[6]=in[15]; out[7]=in[12]; for(int i=0;i<12;++i) out[8+i]=in[23+i]; }
//@ sctor_def what="ScrewMotion(): the motion that stays at the identity"
PROBE impl_sctor_def(const double*in,double*out){ BUF(SMo,m); new(buf) SMo(); pt(out,m.tf1); pt(out+12,m.tf2); pt(out+24,m.tf); out[36]=m.angular_vel; out[37]=m.linear_vel; pv(out+38,m.p); }
PROBE spec_sctor_def(const double*in,double*out){ for(int k=0;k<41;++k) out[k]=0; for(int k=0;k<3;++k) for(int i=0;i<3;++i) out[12*k+4*i]=1; }
// ---- translation
static inline M3 rq(const double*in){ return Q(gm(in)).toRotationMatrix(); }
//@ tctor what="TranslationMotion constructors and integrate"
PROBE impl_tctor(const double*in,double*out){ BUF(TMo,m); new(buf) TMo(gm(in),gv(in+9),gv(in+12)); T3 r; m.TMo::getCurrentTransform(r); pt(out,r); m.TMo::integrate(in[15]); m.TMo::integrate(in[16]); m.TMo::getCurrentTransform(r); pt(out+12,r); pv(out+24,m.getVelocity()); }
PROBE spec_tctor(const double*in,double*out){ for(int k=0;k<12;++k) out[k]=in[k]; pm(out+12,rq(in)); double t=in[16]>1?1:in[16]; for(int k=0;k<3;++k){ out[21+k]=in[9+k]+t*(in[12+k]-in[9+k]); out[24+k]=in[12+k]-in[9+k]; } }
PROBE alt_tctor(const double*in,double*out){ for(int k=0;k<12;++k) out[k]=in[k]; for(int k=0;k<9;++k) out[12+k]=in[k]; double t=in[16]>1?1:in[16]; for(int k=0;k<3;++k){ out[21+k]=in[9+k]+t*(in[12+k]-in[9+k]); out[24+k]=in[12+k]-in[9+k]; } }
//@ tctor_tf what="TranslationMotion(tf1,tf2)"
PROBE impl_tctor_tf(const double*in,double*out){ BUF(TMo,m); new(buf) TMo(gt(in),gt(in+12)); T3 r; m.TMo::getCurrentTransform(r); pt(out,r); m.TMo::integrate(in[24]); m.TMo::getCurrentTransform(r); pt(out+12,r); pv(out+24,m.getVelocity()); }
PROBE spec_tctor_tf(const double*in,double*out){ for(int k=0;k<12;++k) out[k]=in[k]; pm(out+12,rq(in)); double t=in[24]>1?1:in[24]; for(int k=0;k<3;++k){ out[21+k]=in[9+k]+t*(in[21+k]-in[9+k]); out[24+k]=in[21+k]-in[9+k]; } }
PROBE alt_tctor_tf(const double*in,double*out){ spec_tctor_tf_body: for(int k=0;k<12;++k) out[k]=in[k]; for(int k=0;k<9;++k) out[12+k]=in[k]; double t=in[24]>1?1:in[24]; for(int k=0;k<3;++k){ out[21+k]=in[9+k]+t*(in[21+k]-in[9+k]); out[24+k]=in[21+k]-in[9+k]; } }
// ---- the other views of the current pose
struct VM : MotionBase<double> { T3 tf; VM(const T3&t) : MotionBase<double>(), tf(t) {} bool integrate(double) const override { return true; } double computeMotionBound(const BVMotionBoundVisitor<double>&) const override { return 0; } double computeMotionBound(const TriangleMotionBoundVisitor<double>&) const override { return 0; } void getCurrentTransform(T3&t) const override { t=tf; } void getTaylorModel(TMatrix3<double>&,TVector3<double>&) const override {} using MotionBase<double>::getCurrentTransform; };
//@ view_rt what="MotionBase pose accessor agrees with the current transform"
PROBE impl_view_rt(const double*in,double*out){ BUF(VM,m); new(buf) VM(gt(in)); const MotionBase<double>&b=m; M3 R; V3 T; b.MotionBase<double>::getCurrentTransform(R,T); pm(out,R); pv(out+9,T); }
PROBE spec_view_rt(const double*in,double*out){ for(int k=0;k<12;++k) out[k]=in[k]; }
//@ view_r what="MotionBase pose accessor agrees with the current transform"
PROBE impl_view_r(const double*in,double*out){ BUF(VM,m); new(buf) VM(gt(in)); const MotionBase<double>&b=m; M3 R; b.getCurrentRotation(R); pm(out,R); }
PROBE spec_view_r(const double*in,double*out){ for(int k=0;k<9;++k) out[k]=in[k]; }
//@ view_t what="MotionBase pose accessor agrees with the current transform"
PROBE impl_view_t(const double*in,double*out){ BUF(VM,m); new(buf) VM(gt(in)); const MotionBase<double>&b=m; V3 T; b.getCurrentTranslation(T); pv(out,T); }
PROBE spec_view_t(const double*in,double*out){ for(int k=0;k<3;++k) out[k]=in[9+k]; }
//@ view_qt what="MotionBase pose accessor agrees with the current transform"
PROBE impl_view_qt(const double*in,double*out){ BUF(VM,m); new(buf) VM(gt(in)); const MotionBase<double>&b=m; Q q; V3 T; b.MotionBase<double>::getCurrentTransform(q,T); out[0]=q.w(); pv(out+1,q.vec()); pv(out+4,T); }
PROBE spec_view_qt(const double*in,double*out){ Q q(gm(in)); out[0]=q.w(); for(int k=0;k<3;++k) out[1+k]=q.vec()[k]; for(int k=0;k<3;++k) out[4+k]=in[9+k]; }
//@ view_q what="MotionBase pose accessor agrees with the current transform"
PROBE impl_view_q(const double*in,double*out){ BUF(VM,m); new(buf) VM(gt(in)); const MotionBase<double>&b=m; Q q; b.getCurrentRotation(q); out[0]=q.w(); pv(out+1,q.vec()); }
PROBE spec_view_q(const double*in,double*out){ Q q(gm(in)); out[0]=q.w(); for(int k=0;k<3;++k) out[1+k]=q.vec()[k]; }
// ---- spline: the cubic B-spline of the control points
//@ pctor what="SplineMotion: initial pose, position at time t and derived coefficients" assume="1-in[24]>=0"
PROBE impl_pctor(const double*in,double*out){ BUF(PMo,m); new(buf) PMo(gv(in),gv(in+3),gv(in+6),gv(in+9),gv(in+12),gv(in+15),gv(in+18),gv(in+21)); V3 t=m.tf.translation(); pv(out,t); m.PMo::integrate(in[24]); t=m.tf.translation(); pv(out+3,t); out[6]=m.getCurrentTime(); double u=in[24]; out[7]=m.getWeight0(u)+m.getWeight1(u)+m.getWeight2(u)+m.getWeight3(u); V3 d=m.TA*u*u*u+m.TB*u*u+m.TC*u; pv(out+8,d); d=m.RA*u*u*u+m.RB*u*u+m.RC*u; pv(out+11,d); out[14]=m.Rd0Rd0; out[15]=m.Rd0Rd1; out[16]=m.Rd0Rd2; out[17]=m.Rd0Rd3; out[18]=m.Rd1Rd1; out[19]=m.Rd1Rd2; out[20]=m.Rd1Rd3; out[21]=m.Rd2Rd2; out[22]=m.Rd2Rd3; out[23]=m.Rd3Rd3; }
static inline double bsp(const double*c,int i,double u){ double v=1-u; return (v*v*v*c[i]+(4-6*u*u+3*u*u*u)*c[3+i]+(1+3*u+3*u*u-3*u*u*u)*c[6+i]+u*u*u*c[9+i])/6; }
PROBE spec_pctor(const double*in,double*out){ double u=in[24]; for(int i=0;i<3;++i){ out[i]=bsp(in,i,0); out[3+i]=bsp(in,i,u); out[8+i]=6*(bsp(in,i,u)-bsp(in,i,0)); out[11+i]=6*(bsp(in+12,i,u)-bsp(in+12,i,0)); } out[6]=u; out[7]=1; int k=14; for(int a=0;a<4;++a) for(int b=a;b<4;++b) out[k++]=dot3(in+12+3*a,in+12+3*b); }
//@ prot0 what="SplineMotion: rotation at time t (control point 0)" assume="1-in[24]>=0"
PROBE impl_prot0(const double*in0,double*out){ double in[30]; for(int k=0;k<25;++k) in[k]=in0[k]; for(int k=0;k<12;++k) if(k/3!=0) in[12+k]=0; BUF(PMo,m); for(int k=0;k<4;++k){ m.Td[k]=gv(in+3*k); m.Rd[k]=gv(in+12+3*k); } m.PMo::integrate(in[24]); M3 R=m.tf.linear(); pm(out,R); }
PROBE spec_prot0(const double*in0,double*out){ double in[30]; for(int k=0;k<25;++k) in[k]=in0[k]; for(int k=0;k<12;++k) if(k/3!=0) in[12+k]=0; V3 w(bsp(in+12,0,in[24]),bsp(in+12,1,in[24]),bsp(in+12,2,in[24])); double n=rt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]); V3 a=w; if(n>0) for(int i=0;i<3;++i) a[i]=w[i]/n; pm(out,AA(n,a).toRotationMatrix()); }
//@ prot1 what="SplineMotion: rotation at time t (control point 1)" assume="1-in[24]>=0"
PROBE impl_prot1(const double*in0,double*out){ double in[30]; for(int k=0;k<25;++k) in[k]=in0[k]; for(int k=0;k<12;++k) if(k/3!=1) in[12+k]=0; BUF(PMo,m); for(int k=0;k<4;++k){ m.Td[k]=gv(in+3*k); m.Rd[k]=gv(in+12+3*k); } m.PMo::integrate(in[24]); M3 R=m.tf.linear(); pm(out,R); }
PROBE spec_prot1(const double*in0,double*out){ double in[30]; for(int k=0;k<25;++k) in[k]=in0[k]; for(int k=0;k<12;++k) if(k/3!=1) in[12+k]=0; V3 w(bsp(in+12,0,in[24]),bsp(in+12,1,in[24]),bsp(in+12,2,in[24])); double n=rt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]); V3 a=w; if(n>0) for(int i=0;i<3;++i) a[i]=w[i]/n; pm(out,AA(n,a).toRotationMatrix()); }
//@ prot2 what="SplineMotion: rotation at time t (control point 2)" assume="1-in[24]>=0"
PROBE impl_prot2(const double*in0,double*out){ double in[30]; for(int k=0;k<25;++k) in[k]=in0[k]; for(int k=0;k<12;++k) if(k/3!=2) in[12+k]=0; BUF(PMo,m); for(int k=0;k<4;++k){ m.Td[k]=gv(in+3*k); m.Rd[k]=gv(in+12+3*k); } m.PMo::integrate(in[24]); M3 R=m.tf.linear(); pm(out,R); }
PROBE spec_prot2(const double*in0,double*out){ double in[30]; for(int k=0;k<25;++k) in[k]=in0[k]; for(int k=0;k<12;++k) if(k/3!=2) in[12+k]=0; V3 w(bsp(in+12,0,in[24]),bsp(in+12,1,in[24]),bsp(in+12,2,in[24])); double n=rt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]); V3 a=w; if(n>0) for(int i=0;i<3;++i) a[i]=w[i]/n; pm(out,AA(n,a).toRotationMatrix()); }
//@ prot3 what="SplineMotion: rotation at time t (control point 3)" assume="1-in[24]>=0"
PROBE impl_prot3(const double*in0,double*out){ double in[30]; for(int k=0;k<25;++k) in[k]=in0[k]; for(int k=0;k<12;++k) if(k/3!=3) in[12+k]=0; BUF(PMo,m); for(int k=0;k<4;++k){ m.Td[k]=gv(in+3*k); m.Rd[k]=gv(in+12+3*k); } m.PMo::integrate(in[24]); M3 R=m.tf.linear(); pm(out,R); }
PROBE spec_prot3(const double*in0,double*out){ double in[30]; for(int k=0;k<25;++k) in[k]=in0[k]; for(int k=0;k<12;++k) if(k/3!=3) in[12+k]=0; V3 w(bsp(in+12,0,in[24]),bsp(in+12,1,in[24]),bsp(in+12,2,in[24])); double n=rt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]); V3 a=w; if(n>0) for(int i=0;i<3;++i) a[i]=w[i]/n; pm(out,AA(n,a).toRotationMatrix()); }
// ---- Taylor models of the motions (trigonometric models taken from the library, checked by C13)
static inline std::shared_ptr<TimeInterval<double>> sp(TimeInterval<double>&t){ return std::shared_ptr<TimeInterval<double>>(std::shared_ptr<void>(),&t); }
static inline void ptx(double*o,const TMatrix3<double>&m,const TVector3<double>&v){ for(int i=0;i<3;++i)for(int c=0;c<4;++c){ for(int j=0;j<3;++j) o[12*i+4*j+c]=m(i,j).coeff(c); o[36+4*i+c]=v[i].coeff(c); } }
// coefficients of R(t) = I + s(t) K + (1-c(t)) K^2 applied to R1
static inline void rodr(const double*ax,double vel,TimeInterval<double>&ti,double D[3][3][4]){ TaylorModel<double> c(sp(ti)),s(sp(ti)); generateTaylorModelForCosFunc(c,vel,0.0); generateTaylorModelForSinFunc(s,vel,0.0); double K[3][3]={{0,-ax[2],ax[1]},{ax[2],0,-ax[0]},{-ax[1],ax[0],0}}; for(int i=0;i<3;++i)for(int j=0;j<3;++j){ double k2=K[i][0]*K[0][j]+K[i][1]*K[1][j]+K[i][2]*K[2][j]; for(int d=0;d<4;++d) D[i][j][d]=K[i][j]*s.coeff(d)-k2*(c.coeff(d)-(d==0))+((i==j&&d==0)?1:0); } }
//@ itaylor what="InterpMotion::getTaylorModel coefficients" assume="in[15]>0"
PROBE impl_itaylor(const double*in,double*out){ BUF(IMo,m); TimeInterval<double> ti; ti.setValue(0,1); new((void*)&m.time_interval_) std::shared_ptr<TimeInterval<double>>(sp(ti)); iset(m,in); TMatrix3<double> tm(sp(ti)); TVector3<double> tv(sp(ti)); m.IMo::getTaylorModel(tm,tv); ptx(out,tm,tv); }
PROBE spec_itaylor(const double*in,double*out){ TimeInterval<double> ti; ti.setValue(0,1); double D[3][3][4]; rodr(in+16,in[15],ti,D); double q[3],p[3]; rot(in,in+19,q); app(in,in+19,p); for(int i=0;i<3;++i)for(int d=0;d<4;++d){ for(int j=0;j<3;++j) out[12*i+4*j+d]=D[i][0][d]*in[j]+D[i][1][d]*in[3+j]+D[i][2][d]*in[6+j]; out[36+4*i+d]=(d==0?p[i]:0)+(d==1?in[12+i]:0)-(D[i][0][d]*q[0]+D[i][1][d]*q[1]+D[i][2][d]*q[2]); } }
PROBE alt_itaylor(const double*in,double*out){ TimeInterval<double> ti; ti.setValue(0,1); double D[3][3][4]; rodr(in+16,in[15],ti,D); double q[3],p[3]; rot(in,in+19,q); app(in,in+19,p); for(int i=0;i<3;++i)for(int d=0;d<4;++d){ for(int j=0;j<3;++j) out[12*i+4*j+d]=D[i][0][d]*in[j]+D[i][1][d]*in[3+j]+D[i][2][d]*in[6+j]; out[36+4*i+d]=(d==0?p[i]:0)+(d==1?in[12+i]:0)-(D[i][0][d]*q[0]+D[i][1][d]*q[1]+D[i][2][d]*q[2]); } }
//@ staylor what="ScrewMotion::getTaylorModel coefficients" assume="in[15]>0"
PROBE impl_staylor(const double*in,double*out){ BUF(SMo,m); TimeInterval<double> ti; ti.setValue(0,1); new((void*)&m.time_interval_) std::shared_ptr<TimeInterval<double>>(sp(ti)); sset(m,in); TMatrix3<double> tm(sp(ti)); TVector3<double> tv(sp(ti)); m.SMo::getTaylorModel(tm,tv); ptx(out,tm,tv); }
PROBE spec_staylor(const double*in,double*out){ TimeInterval<double> ti; ti.setValue(0,1); double D[3][3][4]; rodr(in+16,in[15],ti,D); double v[3]={in[9]-in[19],in[10]-in[20],in[11]-in[21]}; for(int i=0;i<3;++i)for(int d=0;d<4;++d){ for(int j=0;j<3;++j) out[12*i+4*j+d]=D[i][0][d]*in[j]+D[i][1][d]*in[3+j]+D[i][2][d]*in[6+j]; out[36+4*i+d]=(d==0?in[19+i]:0)+(d==1?in[12]*in[16+i]:0)+(D[i][0][d]*v[0]+D[i][1][d]*v[1]+D[i][2][d]*v[2]); } }
//@ ptaylor what="SplineMotion::getTaylorModel position coefficients"
PROBE impl_ptaylor(const double*in,double*out){ BUF(PMo,m); TimeInterval<double> ti; ti.setValue(0,1); new((void*)&m.time_interval_) std::shared_ptr<TimeInterval<double>>(sp(ti)); for(int k=0;k<4;++k){ m.Td[k]=gv(in+3*k); m.Rd[k]=gv(in+12+3*k); } TMatrix3<double> tm(sp(ti)); TVector3<double> tv(sp(ti)); m.PMo::getTaylorModel(tm,tv); double u=in[24]; for(int i=0;i<3;++i){ out[i]=tv[i].coeff(0)+u*tv[i].coeff(1)+u*u*tv[i].coeff(2)+u*u*u*tv[i].coeff(3); out[3+i]=tv[i].remainder()[0]; out[6+i]=tv[i].remainder()[1]; } }
PROBE spec_ptaylor(const double*in,double*out){ for(int i=0;i<3;++i){ out[i]=bsp(in,i,in[24]); out[3+i]=out[6+i]=0; } }
