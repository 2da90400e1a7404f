#include "probe.h"
#include "fcl/math/bv/OBB.h"
#include "fcl/math/bv/kDOP.h"
#include "fcl/math/bv/OBBRSS.h"
#include "fcl/math/bv/kIOS.h"
#include "fcl/math/bv/RSS.h"
#include "fcl/math/bv/utility.h"
using namespace fcl;
typedef OBB<double> OB;
// OBB layout: axis (9, row major) To(3) extent(3)
static inline OB mo(const double*p){ OB b; b.axis=gm(p); b.To=gv(p+9); b.extent=gv(p+12); return b; }
static inline void po(double*o,const OB&b){ pm(o,b.axis); pv(o+9,b.To); pv(o+12,b.extent); }
#define NN(a,b,c) assume="in[a]>=0"
// ---- separating axes. B = axes of box 2 in box 1's frame, T its centre, a,b half extents.
// Axis candidates L: 3 of A, 3 of B, 9 cross products e_i x B_j. Separated along L iff |T.L| > sum a|L.e| + sum b|L.B_k| (tolerance 1e-6 on |B|).
static inline bool sat(const double*B,const double*T,const double*a,const double*b){
  const double eps=1e-6; double F[9]; for(int i=0;i<9;++i) F[i]=ab(B[i])+eps;
  bool sep=false;
  for(int i=0;i<3;++i) if(ab(T[i])>a[i]+F[3*i]*b[0]+F[3*i+1]*b[1]+F[3*i+2]*b[2]) sep=true;
  for(int j=0;j<3;++j) if(ab(B[j]*T[0]+B[3+j]*T[1]+B[6+j]*T[2])>b[j]+F[j]*a[0]+F[3+j]*a[1]+F[6+j]*a[2]) sep=true;
  for(int i=0;i<3;++i) for(int j=0;j<3;++j){ int i1=(i+1)%3,i2=(i+2)%3,j1=(j+1)%3,j2=(j+2)%3;
    double t=T[i2]*B[3*i1+j]-T[i1]*B[3*i2+j];
    double r=a[i1]*F[3*i2+j]+a[i2]*F[3*i1+j]+b[j1]*F[3*i+j2]+b[j2]*F[3*i+j1];
    if(ab(t)>r) sep=true; }
  return sep; }
//@ sat what="obbDisjoint(B, T, a, b): fifteen separating axes" 
PROBE impl_sat(const double*in,double*out){ out[0]=obbDisjoint(gm(in),gv(in+9),gv(in+12),gv(in+15)); }
PROBE spec_sat(const double*in,double*out){ out[0]=sat(in,in+9,in+12,in+15); }
//@ satT what="obbDisjoint(tf, a, b): fifteen separating axes"
PROBE impl_satT(const double*in,double*out){ out[0]=obbDisjoint(gt(in),gv(in+12),gv(in+15)); }
PROBE spec_satT(const double*in,double*out){ out[0]=sat(in,in+9,in+12,in+15); }
// the relative pose handed to the separating-axis test (box 1 with axes fixed to identity or a quarter turn keeps the terms small; general case below)
static inline void relpose(const double*p,const double*q,double*B,double*T){ double t[3]; for(int i=0;i<3;++i) t[i]=q[9+i]-p[9+i];
  for(int i=0;i<3;++i){ T[i]=p[i]*t[0]+p[3+i]*t[1]+p[6+i]*t[2]; for(int j=0;j<3;++j) B[3*i+j]=p[i]*q[j]+p[3+i]*q[3+j]+p[6+i]*q[6+j]; } }
//@ ovl what="OBB::overlap(other)"
PROBE impl_ovl(const double*in,double*out){ out[0]=mo(in).overlap(mo(in+15)); OB x; out[1]=mo(in).overlap(mo(in+15),x); }
PROBE spec_ovl(const double*in,double*out){ double B[9],T[3]; relpose(in,in+15,B,T); out[0]=out[1]=!sat(B,T,in+12,in+27); }
// free overlap: box 2 given in a frame posed by (R0,T0). in: R0 T0 | b1 axis? box1 has identity axes here, box 2 identity axes in its own frame
//@ ovlR what="overlap(R0, T0, OBB, OBB)"
PROBE impl_ovlR(const double*in,double*out){ OB a=mo(in+12),b=mo(in+27); b.axis.setIdentity(); M3 R0=gm(in); V3 T0=gv(in+9); out[0]=overlap(R0,T0,a,b); }
PROBE spec_ovlR(const double*in,double*out){ double q[15]; for(int i=0;i<9;++i) q[i]=in[i]; app(in,in+36,q+9); double B[9],T[3]; relpose(in+12,q,B,T); out[0]=!sat(B,T,in+24,in+39); }
//@ ovlR2 what="overlap(R0, T0, OBB, OBB) with rotated second box"
PROBE impl_ovlR2(const double*in,double*out){ OB a=mo(in+12),b=mo(in+27); a.axis.setIdentity(); M3 R0=gm(in); V3 T0=gv(in+9); out[0]=overlap(R0,T0,a,b); }
PROBE spec_ovlR2(const double*in,double*out){ double q[15]; const double*b=in+27; for(int i=0;i<3;++i)for(int j=0;j<3;++j) q[3*i+j]=in[3*i]*b[j]+in[3*i+1]*b[3+j]+in[3*i+2]*b[6+j]; app(in,b+9,q+9); double t[3]; for(int i=0;i<3;++i) t[i]=q[9+i]-in[21+i]; out[0]=!sat(q,t,in+24,in+39); }
//@ obc what="OBB::contain(point)" assume="in[12]>=0,in[13]>=0,in[14]>=0"
PROBE impl_obc(const double*in,double*out){ out[0]=mo(in).contain(gv(in+15)); }
PROBE spec_obc(const double*in,double*out){ double d[3],l[3]; for(int i=0;i<3;++i) d[i]=in[15+i]-in[9+i]; rotT(in,d,l); bool r=true; for(int i=0;i<3;++i){ if(l[i]>in[12+i]) r=false; if(l[i]<-in[12+i]) r=false; } out[0]=r; }
//@ obm what="OBB size, volume, sides, centre; translate"
PROBE impl_obm(const double*in,double*out){ OB b=mo(in); out[0]=b.width(); out[1]=b.height(); out[2]=b.depth(); out[3]=b.volume(); out[4]=b.size(); pv(out+5,V3(b.center())); po(out+8,translate(b,gv(in+15))); }
PROBE spec_obm(const double*in,double*out){ double x=in[12],y=in[13],z=in[14]; out[0]=2*x; out[1]=2*y; out[2]=2*z; out[3]=8*x*y*z; out[4]=x*x+y*y+z*z; for(int i=0;i<3;++i) out[5+i]=in[9+i]; for(int i=0;i<15;++i) out[8+i]=in[i]; for(int i=0;i<3;++i) out[17+i]+=in[15+i]; }
//@ obv what="computeVertices(OBB): the eight corners" 
PROBE impl_obv(const double*in,double*out){ V3 v[8]; computeVertices(mo(in),v); V3 s=V3::Zero(); double x2=0; for(int i=0;i<8;++i){ s+=v[i]; } pv(out,s); for(int i=0;i<8;++i) for(int j=0;j<i;++j) x2+=(v[i]-v[j]).squaredNorm(); out[3]=x2; }
PROBE spec_obv(const double*in,double*out){ for(int i=0;i<3;++i) out[i]=8*in[9+i]; double q=0; for(int k=0;k<3;++k){ double e2=in[12+k]*in[12+k]; double n=in[k]*in[k]+in[3+k]*in[3+k]+in[6+k]*in[6+k]; q+=64*e2*n; } out[3]=q; }
// merging: two boxes turned by +-alpha about z (cos 3/5, sin 4/5 of the full relative turn), so that the merged box has the world axes; it must be exactly the box around all corners
static inline M3 rz(double c,double s){ M3 m; m<<c,-s,0,s,c,0,0,0,1; return m; }
//@ merge what="merge_smalldist(OBB, OBB): encloses every corner of both boxes" assume="in[3]>0,in[4]>0,in[5]>0,in[9]>0,in[10]>0,in[11]>0"
PROBE impl_merge(const double*in,double*out){ OB a,b; a.axis=rz(0.6,0.8); b.axis=rz(0.6,-0.8); a.To=gv(in); b.To=gv(in); a.extent=gv(in+3); b.extent=gv(in+9); OB m=merge_smalldist(a,b); for(int i=0;i<3;++i){ out[i]=m.To[i]; out[3+i]=m.extent[i]; } for(int i=0;i<9;++i) out[6+i]=m.axis(i/3,i%3); }
PROBE spec_merge(const double*in,double*out){ double ex=mx(0.6*in[3]+0.8*in[4],0.6*in[9]+0.8*in[10]), ey=mx(0.8*in[3]+0.6*in[4],0.8*in[9]+0.6*in[10]), ez=mx(in[5],in[11]); for(int i=0;i<3;++i) out[i]=in[i]; out[3]=ex; out[4]=ey; out[5]=ez; for(int i=0;i<9;++i) out[6+i]=(i%4==0); }
// ---- k-DOPs: slab directions
static const double DIR[12][3]={{1,0,0},{0,1,0},{0,0,1},{1,1,0},{1,0,1},{0,1,1},{1,-1,0},{1,0,-1},{0,1,-1},{1,1,-1},{1,-1,1},{-1,1,1}};
static inline double proj(int i,const double*p){ // literal switch so that it folds
  switch(i){case 0:return p[0];case 1:return p[1];case 2:return p[2];case 3:return p[0]+p[1];case 4:return p[0]+p[2];case 5:return p[1]+p[2];case 6:return p[0]-p[1];case 7:return p[0]-p[2];case 8:return p[1]-p[2];case 9:return p[0]+p[1]-p[2];case 10:return p[0]+p[2]-p[1];default:return p[1]+p[2]-p[0];} }
#define KD(N,H) typedef KDOP<double,N> K##N; \
static inline K##N mk##N(const double*p){ K##N k; for(int i=0;i<N;++i) k.dist(i)=p[i]; return k; } \
static inline void pk##N(double*o,const K##N&k){ for(int i=0;i<N;++i) o[i]=k.dist(i); } \
PROBE impl_kov##N(const double*in,double*out){ out[0]=mk##N(in).overlap(mk##N(in+N)); } \
PROBE spec_kov##N(const double*in,double*out){ bool r=true; for(int i=0;i<H;++i){ if(in[i]>in[N+H+i]) r=false; if(in[N+i]>in[H+i]) r=false; } out[0]=r; } \
PROBE impl_kin##N(const double*in,double*out){ out[0]=mk##N(in).inside(gv(in+N)); } \
PROBE spec_kin##N(const double*in,double*out){ bool r=true; for(int i=0;i<H;++i){ double d=proj(i,in+N); if(d<in[i]) r=false; if(d>in[H+i]) r=false; } out[0]=r; } \
PROBE impl_kadd##N(const double*in,double*out){ K##N k=mk##N(in); k+=gv(in+N); pk##N(out,k); K##N z; z+=gv(in+N); pk##N(out+N,z); } \
PROBE spec_kadd##N(const double*in,double*out){ for(int i=0;i<H;++i){ double d=proj(i,in+N); out[i]=mn(in[i],d); out[H+i]=mx(in[H+i],d); out[N+i]=out[N+H+i]=d; } } \
PROBE impl_kmrg##N(const double*in,double*out){ K##N k=mk##N(in); k+=mk##N(in+N); pk##N(out,k); pk##N(out+N,mk##N(in)+mk##N(in+N)); } \
PROBE spec_kmrg##N(const double*in,double*out){ for(int i=0;i<H;++i){ out[i]=out[N+i]=mn(in[i],in[N+i]); out[H+i]=out[N+H+i]=mx(in[H+i],in[N+H+i]); } } \
PROBE impl_kctor##N(const double*in,double*out){ pk##N(out,K##N(gv(in))); pk##N(out+N,K##N(gv(in),gv(in+3))); } \
PROBE spec_kctor##N(const double*in,double*out){ for(int i=0;i<H;++i){ double d=proj(i,in),e=proj(i,in+3); out[i]=out[H+i]=d; out[N+i]=mn(d,e); out[N+H+i]=mx(d,e); } } \
PROBE impl_kmsr##N(const double*in,double*out){ K##N k=mk##N(in); out[0]=k.width(); out[1]=k.height(); out[2]=k.depth(); out[3]=k.volume(); out[4]=k.size(); pv(out+5,V3(k.center())); pk##N(out+8,translate(k,gv(in+N))); } \
PROBE spec_kmsr##N(const double*in,double*out){ double x=in[H]-in[0],y=in[H+1]-in[1],z=in[H+2]-in[2]; out[0]=x; out[1]=y; out[2]=z; out[3]=x*y*z; out[4]=x*x+y*y+z*z; for(int i=0;i<3;++i) out[5+i]=(in[i]+in[H+i])/2; for(int i=0;i<H;++i){ out[8+i]=in[i]+proj(i,in+N); out[8+H+i]=in[H+i]+proj(i,in+N); } } \
PROBE impl_kfit##N(const double*in,double*out){ K##N k; V3 p[3]={gv(in),gv(in+3),gv(in+6)}; fit(p,3,k); pk##N(out,k); } \
PROBE spec_kfit##N(const double*in,double*out){ for(int i=0;i<H;++i){ double a=proj(i,in),b=proj(i,in+3),c=proj(i,in+6); out[i]=mn(mn(a,b),c); out[H+i]=mx(mx(a,b),c); } }
KD(16,8)
KD(18,9)
KD(24,12)
// ---- kIOS: intersection of spheres and an OBB
typedef kIOS<double> KI;
// layout: n spheres (o,r) then OBB
static inline KI ki(const double*p,int n){ KI k; k.num_spheres=n; for(int i=0;i<n;++i){ k.spheres[i].o=gv(p+4*i); k.spheres[i].r=p[4*i+3]; } for(int i=n;i<5;++i){ k.spheres[i].o.setZero(); k.spheres[i].r=0; } k.obb.axis.setIdentity(); k.obb.To=gv(p+4*n); k.obb.extent=gv(p+4*n+3); return k; }
static inline bool ssep(const double*p,const double*q){ double d=0; for(int i=0;i<3;++i) d+=sq(p[i]-q[i]); return d>sq(p[3]+q[3]); }
//@ kiov what="kIOS::overlap: disjoint only if some sphere pair or the boxes are disjoint"
PROBE impl_kiov(const double*in,double*out){ out[0]=ki(in,3).overlap(ki(in+18,1)); }
PROBE spec_kiov(const double*in,double*out){ bool r=true; for(int i=0;i<3;++i) if(ssep(in+4*i,in+18)) r=false; double I[9]={1,0,0,0,1,0,0,0,1},T[3]; for(int i=0;i<3;++i) T[i]=in[22+i]-in[12+i]; if(sat(I,T,in+15,in+25)) r=false; out[0]=r; }
//@ kiov2 what="kIOS::overlap (1 against 3 spheres)"
PROBE impl_kiov2(const double*in,double*out){ out[0]=ki(in,1).overlap(ki(in+10,3)); }
PROBE spec_kiov2(const double*in,double*out){ bool r=true; for(int i=0;i<3;++i) if(ssep(in,in+10+4*i)) r=false; double I[9]={1,0,0,0,1,0,0,0,1},T[3]; for(int i=0;i<3;++i) T[i]=in[22+i]-in[4+i]; if(sat(I,T,in+7,in+25)) r=false; out[0]=r; }
//@ kicon what="kIOS::contain(point)"
PROBE impl_kicon(const double*in,double*out){ out[0]=ki(in,3).contain(gv(in+18)); }
PROBE spec_kicon(const double*in,double*out){ bool r=true; for(int i=0;i<3;++i){ double d=0; for(int k=0;k<3;++k) d+=sq(in[4*i+k]-in[18+k]); if(d>sq(in[4*i+3])) r=false; } out[0]=r; }
//@ kitr what="translate(kIOS, t)"
PROBE impl_kitr(const double*in,double*out){ KI k=translate(ki(in,2),gv(in+14)); for(int i=0;i<2;++i){ pv(out+4*i,k.spheres[i].o); out[4*i+3]=k.spheres[i].r; } po(out+8,k.obb); out[23]=k.num_spheres; }
PROBE spec_kitr(const double*in,double*out){ for(int i=0;i<2;++i){ for(int j=0;j<3;++j) out[4*i+j]=in[4*i+j]+in[14+j]; out[4*i+3]=in[4*i+3]; } for(int i=0;i<9;++i) out[8+i]=(i%4==0); for(int j=0;j<3;++j){ out[17+j]=in[8+j]+in[14+j]; out[20+j]=in[11+j]; } out[23]=2; }
//@ kidist what="kIOS::distance and its nearest points" assume="in[3]>=0,in[13]>=0"
PROBE impl_kidist(const double*in,double*out){ V3 p,q; p.setZero(); q.setZero(); out[0]=ki(in,1).distance(ki(in+10,1),&p,&q); out[1]=ki(in,1).distance(ki(in+10,1)); pv(out+2,p); pv(out+5,q); }
PROBE spec_kidist(const double*in,double*out){ double d2=0; for(int i=0;i<3;++i) d2+=sq(in[i]-in[10+i]); double d=rt(d2),g=d-(in[3]+in[13]); bool s=g>0; out[0]=out[1]=s?g:0; for(int i=0;i<3;++i){ out[2+i]= s? in[i]-(in[i]-in[10+i])*(in[3]/d):0; out[5+i]= s? in[10+i]+(in[i]-in[10+i])*(in[13]/d):0; } }
//@ kiadd what="kIOS += point grows exactly the spheres that miss it" assume="in[3]>=0"
PROBE impl_kiadd(const double*in,double*out){ KI k=ki(in,1); double r2=0; for(int i=0;i<3;++i) r2+=sq(in[10+i]-in[i]); k.obb.extent.setZero(); k.obb.To=gv(in+10); k+=gv(in+10); out[0]=k.spheres[0].r; pv(out+1,k.spheres[0].o); }
PROBE spec_kiadd(const double*in,double*out){ double d=0; for(int i=0;i<3;++i) d+=sq(in[10+i]-in[i]); out[0]= d>sq(in[3]) ? rt(d):in[3]; for(int i=0;i<3;++i) out[1+i]=in[i]; }
// ---- OBBRSS delegates overlap and containment to its box
typedef OBBRSS<double> OR;
static inline OR mor(const double*p){ OR r; r.obb=mo(p); r.rss.axis=gm(p); r.rss.To=gv(p+9); r.rss.l[0]=r.rss.l[1]=0; r.rss.r=0; return r; }
//@ oro what="OBBRSS::overlap and OBBRSS::contain"
PROBE impl_oro(const double*in,double*out){ out[0]=mor(in).overlap(mor(in+15)); out[1]=mor(in).contain(gv(in+30)); }
PROBE spec_oro(const double*in,double*out){ double B[9],T[3]; relpose(in,in+15,B,T); out[0]=!sat(B,T,in+12,in+27); double d[3],l[3]; for(int i=0;i<3;++i) d[i]=in[30+i]-in[9+i]; rotT(in,d,l); bool r=true; for(int i=0;i<3;++i){ if(l[i]>in[12+i]) r=false; if(l[i]<-in[12+i]) r=false; } out[1]=r; }
//@ ortr what="translate(OBBRSS, t)"
PROBE impl_ortr(const double*in,double*out){ OR r=translate(mor(in),gv(in+15)); po(out,r.obb); pv(out+15,r.rss.To); pm(out+18,r.rss.axis); }
PROBE spec_ortr(const double*in,double*out){ for(int i=0;i<15;++i) out[i]=in[i]; for(int i=0;i<3;++i){ out[9+i]+=in[15+i]; out[15+i]=in[9+i]+in[15+i]; } for(int i=0;i<9;++i) out[18+i]=in[i]; }
// ---- RSS: containment, centre, sizes, translation
typedef RSS<double> RS;
// layout axis(9) To(3) l(2) r
static inline RS mr(const double*p){ RS b; b.axis=gm(p); b.To=gv(p+9); b.l[0]=p[12]; b.l[1]=p[13]; b.r=p[14]; return b; }
//@ rsc what="RSS centre, sizes, setToFromCenter, translate"
PROBE impl_rsc(const double*in,double*out){ RS b=mr(in); pv(out,V3(b.center())); out[3]=b.width(); out[4]=b.height(); out[5]=b.depth(); b.setToFromCenter(gv(in+15)); pv(out+6,b.To); RS t=translate(mr(in),gv(in+15)); pv(out+9,t.To); pm(out+12,t.axis); out[21]=t.l[0]; out[22]=t.l[1]; out[23]=t.r; out[24]=mr(in).volume(); }
PROBE spec_rsc(const double*in,double*out){ double h[3]={in[12]/2,in[13]/2,0},w[3]; rot(in,h,w); for(int i=0;i<3;++i){ out[i]=in[9+i]+w[i]; out[6+i]=in[15+i]-w[i]; out[9+i]=in[9+i]+in[15+i]; } out[3]=in[12]+2*in[14]; out[4]=in[13]+2*in[14]; out[5]=2*in[14]; for(int i=0;i<9;++i) out[12+i]=in[i]; out[21]=in[12]; out[22]=in[13]; out[23]=in[14];
  double r=in[14]; out[24]=in[12]*in[13]*2*r+4*3.14159265358979323846*r*r*r; }
//@ rsin what="RSS::contain(point)" ties=ignore assume="in[12]>0,in[13]>0,in[14]>0"
PROBE impl_rsin(const double*in,double*out){ RS b=mr(in); b.axis.setIdentity(); out[0]=b.contain(gv(in+15)); }
PROBE spec_rsin(const double*in,double*out){ double x=in[15]-in[9],y=in[16]-in[10],z=in[17]-in[11]; double cx= x<0?0: x>in[12]?in[12]:x, cy= y<0?0: y>in[13]?in[13]:y; out[0]= (x>=0&&x<=in[12]&&y>=0&&y<=in[13]) ? ab(z)<in[14] : sq(x-cx)+sq(y-cy)+z*z < sq(in[14]); }
// ---- conversions between volume types under a pose: the result contains the original
//@ cvAA what="convertBV AABB -> AABB (ball of the diagonal)"
static inline AABB<double> mb(const double*p){ AABB<double> b; b.min_=gv(p); b.max_=gv(p+3); return b; }
PROBE impl_cvAA(const double*in,double*out){ AABB<double> o; convertBV(mb(in+12),gt(in),o); pv(out,o.min_); pv(out+3,o.max_); }
PROBE spec_cvAA(const double*in,double*out){ double c[3],w[3],d=0; for(int i=0;i<3;++i){ c[i]=(in[12+i]+in[15+i])/2; d+=sq(in[15+i]-in[12+i]); } app(in,c,w); double r=rt(d)/2; for(int i=0;i<3;++i){ out[i]=w[i]-r; out[3+i]=w[i]+r; } }
//@ cvAO what="convertBV AABB -> OBB"
PROBE impl_cvAO(const double*in,double*out){ OB o; convertBV(mb(in+12),gt(in),o); po(out,o); }
PROBE spec_cvAO(const double*in,double*out){ double c[3]; for(int i=0;i<3;++i){ c[i]=(in[12+i]+in[15+i])/2; out[12+i]=(in[15+i]-in[12+i])/2; } app(in,c,out+9); for(int i=0;i<9;++i) out[i]=in[i]; }
static inline void spOO(const double*in,double*out){ for(int i=0;i<3;++i)for(int j=0;j<3;++j) out[3*i+j]=in[3*i]*in[12+j]+in[3*i+1]*in[15+j]+in[3*i+2]*in[18+j]; app(in,in+21,out+9); for(int i=0;i<3;++i) out[12+i]=in[24+i]; }
//@ cvOO what="convertBV OBB -> OBB and OBBRSS -> OBB"
PROBE impl_cvOO(const double*in,double*out){ OB o; convertBV(mo(in+12),gt(in),o); po(out,o); OR q=mor(in+12); convertBV(q,gt(in),o); po(out+15,o); }
PROBE spec_cvOO(const double*in,double*out){ spOO(in,out); spOO(in,out+15); }
//@ cvRO what="convertBV RSS -> OBB"
PROBE impl_cvRO(const double*in,double*out){ OB o; convertBV(mr(in+12),gt(in),o); po(out,o); }
PROBE spec_cvRO(const double*in,double*out){ double h[3]={in[24]/2,in[25]/2,0},w[3]; rot(in+12,h,w); for(int i=0;i<3;++i) w[i]+=in[21+i]; spOO(in,out); app(in,w,out+9); out[12]=in[24]/2+in[26]; out[13]=in[25]/2+in[26]; out[14]=in[26]; }
//@ cvOR what="convertBV OBB -> RSS, RSS -> RSS, OBBRSS -> RSS"
PROBE impl_cvOR(const double*in,double*out){ RS o; convertBV(mo(in+12),gt(in),o); pm(out,o.axis); pv(out+9,o.To); out[12]=o.l[0]; out[13]=o.l[1]; out[14]=o.r; convertBV(mr(in+12),gt(in),o); pm(out+15,o.axis); pv(out+24,o.To); out[27]=o.l[0]; out[28]=o.l[1]; out[29]=o.r; }
PROBE spec_cvOR(const double*in,double*out){ spOO(in,out); double h[3]={-in[24],-in[25],0},w[3]; rot(in+12,h,w); for(int i=0;i<3;++i) w[i]+=in[21+i]; app(in,w,out+9); out[12]=2*in[24]; out[13]=2*in[25]; out[14]=in[26]; spOO(in,out+15); for(int i=0;i<3;++i) out[27+i]=in[24+i]; }
//@ cvKA what="convertBV KDOP -> AABB (ball around its box)"
PROBE impl_cvKA(const double*in,double*out){ AABB<double> o; convertBV(mk16(in+12),gt(in),o); pv(out,o.min_); pv(out+3,o.max_); }
PROBE spec_cvKA(const double*in,double*out){ double c[3],w[3],d=0; for(int i=0;i<3;++i){ c[i]=(in[12+i]+in[20+i])/2; d+=sq(in[20+i]-in[12+i]); } app(in,c,w); double r=rt(d)/2; for(int i=0;i<3;++i){ out[i]=w[i]-r; out[3+i]=w[i]+r; } }
//@ cvTA what="convertBV OBB -> AABB (ball around its sides)"
PROBE impl_cvTA(const double*in,double*out){ AABB<double> o; convertBV(mo(in+12),gt(in),o); pv(out,o.min_); pv(out+3,o.max_); }
PROBE spec_cvTA(const double*in,double*out){ double w[3],d=0; for(int i=0;i<3;++i) d+=sq(in[24+i]); app(in,in+21,w); double r=rt(d); for(int i=0;i<3;++i){ out[i]=w[i]-r; out[3+i]=w[i]+r; } }
