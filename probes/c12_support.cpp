// C12: support functions of both solvers.  Never executed; analysed as IR.
// The conversion of a rotation matrix to a quaternion, quaternion inversion and quaternion rotation (Eigen, libccd)
// are opaque functions of their arguments, the same for the code and for the reference.
#include "probe.h"
#include <ccd/ccd.h>
#include <ccd/quat.h>
extern "C" { double evp_out(double,int); double evp_m2q(const double*); double evp_qinv(const double*); double evp_qrot(const double*); }
namespace Eigen { namespace internal {
template<int R,int C,bool I> struct quaternionbase_assign_impl<const Block<const Matrix<double,R,C>,3,3,I>,3,3>{ template<class D> static inline void run(QuaternionBase<D>&q,const Block<const Matrix<double,R,C>,3,3,I>&m){ double x[9]; pm(x,m); double h=evp_m2q(x); q.x()=evp_out(h,0); q.y()=evp_out(h,1); q.z()=evp_out(h,2); q.w()=evp_out(h,3); } };
template<int R,int C,bool I> struct quaternionbase_assign_impl<Block<const Matrix<double,R,C>,3,3,I>,3,3>{ template<class D> static inline void run(QuaternionBase<D>&q,const Block<const Matrix<double,R,C>,3,3,I>&m){ double x[9]; pm(x,m); double h=evp_m2q(x); q.x()=evp_out(h,0); q.y()=evp_out(h,1); q.z()=evp_out(h,2); q.w()=evp_out(h,3); } };
} }
static inline int mock_qinv(ccd_quat_t*d,const ccd_quat_t*q){ double x[4]; for(int i=0;i<4;++i) x[i]=q->q[i]; double h=evp_qinv(x); for(int i=0;i<4;++i) d->q[i]=evp_out(h,i); return 0; }
static inline void mock_qrot(ccd_vec3_t*v,const ccd_quat_t*q){ double x[7]; for(int i=0;i<3;++i) x[i]=v->v[i]; for(int i=0;i<4;++i) x[3+i]=q->q[i]; double h=evp_qrot(x); for(int i=0;i<3;++i) v->v[i]=evp_out(h,i); }
#define ccdQuatInvert2 mock_qinv
#define ccdQuatRotVec mock_qrot
#include "narrowphase/detail/convexity_based_algorithm/gjk_libccd.cpp"
#include "narrowphase/detail/convexity_based_algorithm/gjk.cpp"
#include "narrowphase/detail/convexity_based_algorithm/minkowski_diff.cpp"
#include "geometry/shape/convex.cpp"
using namespace fcl; using namespace fcl::detail;
static inline double ip(const V3&a,const V3&b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
struct VecRep { const void *b,*e,*c; };
#define CVX(NM,OFF) alignas(Convex<double>) char buf##NM[sizeof(Convex<double>)]; VecRep vr##NM={in+OFF,in+OFF+12,in+OFF+12}; Convex<double>&NM=*(Convex<double>*)buf##NM; new((void*)&NM) Dummy; new((void*)&NM.vertices_) std::shared_ptr<const std::vector<V3>>(std::shared_ptr<void>(),(const std::vector<V3>*)&vr##NM); NM.find_extreme_via_neighbors_=false
struct Dummy : ShapeBase<double> { void computeLocalAABB() override{} NODE_TYPE getNodeType() const override{ return GEOM_CONVEX; } };
// inputs: pose 0..11, direction 12..14, sizes 16.., points 20..
// ---- reference support points in the frame of the shape
static inline V3 sBox(const double*s,const V3&d){ V3 r; for(int i=0;i<3;++i) r[i]=d[i]>0?s[i]/2:-s[i]/2; return r; }
static inline V3 sSph(const double*s,const V3&d){ double l=rt(ip(d,d)); return d*(s[0]/l); }
static inline V3 sEll(const double*s,const V3&d){ V3 r; double q=0; for(int i=0;i<3;++i){ r[i]=sq(s[i])*d[i]; q+=r[i]*d[i]; } q=rt(q); return r/q; }
static inline V3 sCap(const double*s,const V3&d){ V3 r=sSph(s,d); r[2]+=d[2]>0?s[1]/2:-s[1]/2; return r; }
static inline V3 sCyl(const double*s,const V3&d,double eps){ double z=rt(sq(d[0])+sq(d[1])); double e=eps>0&&ab(d[2])<eps?0:(d[2]>0?1:-1); V3 r(0,0,e*s[1]/2); if(eps>0?!(z<eps):z>0){ r[0]=d[0]*s[0]/z; r[1]=d[1]*s[0]/z; } return r; }
static inline V3 sCon(const double*s,const V3&d){ double z=rt(sq(d[0])+sq(d[1])),l=rt(ip(d,d)); if(d[2]>l*s[0]/rt(sq(s[0])+sq(s[1]))) return V3(0,0,s[1]/2); if(z>0) return V3(d[0]*s[0]/z,d[1]*s[0]/z,-s[1]/2); return V3(0,0,-s[1]/2); }
static inline V3 sPts(const double*p,int n,const V3&d){ V3 b=gv(p); double m=ip(b,d); for(int i=1;i<n;++i){ V3 x=gv(p+3*i); double e=ip(x,d); if(e>m){ m=e; b=x; } } return b; }
// ---- libccd objects
static inline V3 qr(const V3&v,const double*q){ double x[7]; pv(x,v); for(int i=0;i<4;++i) x[3+i]=q[i]; double h=evp_qrot(x); return V3(evp_out(h,0),evp_out(h,1),evp_out(h,2)); }
struct Fr { double q[4],qi[4]; V3 t; Fr(const double*in){ T3 x=gt(in); double m[9]; pm(m,x.linear()); double h=evp_m2q(m); for(int i=0;i<4;++i) q[i]=evp_out(h,i); h=evp_qinv(q); for(int i=0;i<4;++i) qi[i]=evp_out(h,i); t=x.translation(); } V3 loc(const V3&d){ return qr(d,qi); } V3 world(const V3&p){ return qr(p,q)+t; } };
static inline void sup(GJKSupportFunction f,GJKCenterFunction c,void*o,const double*in,double*out){ ccd_vec3_t d,v; for(int i=0;i<3;++i) d.v[i]=in[12+i]; f(o,&d,&v); for(int i=0;i<3;++i) out[i]=v.v[i]; c(o,&v); for(int i=0;i<3;++i) out[3+i]=v.v[i]; }
template<class Sh> static inline void ccdSup(const Sh&s,const double*in,double*out){ T3 t=gt(in); typedef GJKInitializer<double,Sh> G; void*o=G::createGJKObject(s,t); sup(G::getSupportFunction(),G::getCenterFunction(),o,in,out); }
#define CCD(NM,DECL,REF) PROBE impl_ccd_##NM(const double*in,double*out){ DECL; ccdSup(s,in,out); } PROBE spec_ccd_##NM(const double*in,double*out){ Fr f(in); V3 d=f.loc(gv(in+12)); V3 p=f.world(REF); pv(out,p); pv(out+3,f.t); }
#define Z in+16
//@ ccd_box what="libccd support and centre of a box" ties=ignore events=none assume="in[16]>0,in[17]>0,in[18]>0"
CCD(box,Box<double> s(in[16],in[17],in[18]),sBox(Z,d))
//@ ccd_sphere what="libccd support and centre of a sphere" ties=ignore events=none assume="in[16]>0"
CCD(sphere,Sphere<double> s(in[16]),sSph(Z,d))
//@ ccd_ell what="libccd support and centre of an ellipsoid" ties=ignore events=none assume="in[16]>0,in[17]>0,in[18]>0"
CCD(ell,Ellipsoid<double> s(in[16],in[17],in[18]),sEll(Z,d))
//@ ccd_cap what="libccd support and centre of a capsule" ties=ignore events=none assume="in[16]>0,in[17]>0"
CCD(cap,Capsule<double> s(in[16],in[17]),sCap(Z,d))
//@ ccd_cyl what="libccd support and centre of a cylinder" ties=ignore events=none assume="in[16]>0,in[17]>0"
CCD(cyl,Cylinder<double> s(in[16],in[17]),sCyl(Z,d,CCD_EPS))
//@ ccd_cone what="libccd support and centre of a cone" ties=ignore events=none assume="in[16]>0,in[17]>0"
CCD(cone,Cone<double> s(in[16],in[17]),sCon(Z,d))
//@ ccd_convex what="libccd support and centre of a convex polyhedron" ties=ignore events=none
PROBE impl_ccd_convex(const double*in,double*out){ CVX(s,20); s.interior_point_=gv(in+40); ccdSup(s,in,out); }
PROBE spec_ccd_convex(const double*in,double*out){ Fr f(in); V3 d=f.loc(gv(in+12)); V3 p=f.world(sPts(in+20,4,d)); pv(out,p); V3 c=f.world(gv(in+40)); pv(out+3,c); }
//@ ccd_tri what="libccd support and centre of a triangle" ties=ignore events=none
PROBE impl_ccd_tri(const double*in,double*out){ T3 t=gt(in); void*o=triCreateGJKObject(gv(in+20),gv(in+23),gv(in+26),t); sup(triGetSupportFunction(),triGetCenterFunction(),o,in,out); }
PROBE spec_ccd_tri(const double*in,double*out){ Fr f(in); V3 d=f.loc(gv(in+12)); V3 p=f.world(sPts(in+20,3,d)); pv(out,p); V3 c; for(int i=0;i<3;++i) c[i]=(in[20+i]+in[23+i]+in[26+i])/3; c=f.world(c); pv(out+3,c); }
//@ ccd_tri0 what="libccd support and centre of a triangle in world coordinates" ties=ignore events=none
PROBE impl_ccd_tri0(const double*in,double*out){ void*o=triCreateGJKObject(gv(in+20),gv(in+23),gv(in+26)); sup(triGetSupportFunction(),triGetCenterFunction(),o,in,out); }
PROBE spec_ccd_tri0(const double*in,double*out){ double q[4]={0,0,0,1},qi[4]; double h=evp_qinv(q); for(int i=0;i<4;++i) qi[i]=evp_out(h,i); V3 d=qr(gv(in+12),qi); V3 p=qr(sPts(in+20,3,d),q); pv(out,p); V3 c; for(int i=0;i<3;++i) c[i]=(in[20+i]+in[23+i]+in[26+i])/3; c=qr(c,q); pv(out+3,c); }
// ---- Minkowski difference of the independent solver: shape 0 in its own frame, shape 1 moved by toshape0 (directions by toshape1)
struct Mk { MinkowskiDiff<double> m; Mk(const ShapeBase<double>*a,const ShapeBase<double>*b,const double*in){ m.shapes[0]=a; m.shapes[1]=b; m.toshape0=gt(in); m.toshape1=gm(in+60); } };
template<bool U=true> static inline void mkOut(const MinkowskiDiff<double>&m,const double*in,double*out){ V3 d=gv(in+12); if(U) d=d/rt(ip(d,d)); V3 v=gv(in+72); pv(out,m.support0(d)); pv(out+3,m.support1(d)); pv(out+6,m.support(d)); pv(out+9,m.support(d,size_t(0))); pv(out+12,m.support(d,size_t(1))); pv(out+15,m.support0(d,v)); pv(out+18,m.support(d,v,0)); pv(out+21,m.support(d,v,1)); }
static inline V3 t1d(const double*in,const V3&d){ V3 r; for(int i=0;i<3;++i) r[i]=in[60+3*i]*d[0]+in[61+3*i]*d[1]+in[62+3*i]*d[2]; return r; }
static inline V3 t0p(const double*in,const V3&p){ double T[12]; T3 t=gt(in); pm(T,t.linear()); pv(T+9,t.translation()); V3 r; double x[3]; pv(x,p); double o[3]; app(T,x,o); return V3(o[0],o[1],o[2]); }
template<bool U=true,class F,class G> static inline void mkRef(const double*in,double*out,F f,G g){ V3 d=gv(in+12); V3 u=d; if(U) u=d/rt(ip(d,d)); V3 v=gv(in+72); V3 a=f(u),b=t0p(in,g(t1d(in,u))),c=t0p(in,g(t1d(in,V3(-u)))); V3 av=ip(d,v)>0?V3(a+v):a; pv(out,a); pv(out+3,b); pv(out+6,V3(a-c)); pv(out+9,a); pv(out+12,b); pv(out+15,av); pv(out+18,av); pv(out+21,b); }
#define MK(NM,DECL,REF) PROBE impl_mk_##NM(const double*in,double*out){ const double*I=in+16; DECL(a); { const double*I=in+40; DECL(b); Mk k(&a,&b,in); mkOut(k.m,in,out); } } \
 PROBE spec_mk_##NM(const double*in,double*out){ mkRef(in,out,[&](const V3&d)->V3{ const double*I=in+16; (void)I; return REF; },[&](const V3&d)->V3{ const double*I=in+40; (void)I; return REF; }); }
#define A3 "in[16]>0,in[17]>0,in[18]>0,in[40]>0,in[41]>0,in[42]>0"
//@ mk_box what="supports of the Minkowski difference of two boxes" ties=ignore events=none assume="in[16]>0,in[17]>0,in[18]>0,in[40]>0,in[41]>0,in[42]>0"
#define D_box(a) Box<double> a(I[0],I[1],I[2])
MK(box,D_box,sBox(I,d))
//@ mk_sphere what="supports of the Minkowski difference of two spheres (unit direction)" ties=ignore events=none assume="in[16]>0,in[40]>0"
#define D_sphere(a) Sphere<double> a(I[0])
MK(sphere,D_sphere,V3(d*I[0]))
//@ mk_ell what="supports of the Minkowski difference of two ellipsoids" ties=ignore events=none assume="in[16]>0,in[17]>0,in[18]>0,in[40]>0,in[41]>0,in[42]>0"
#define D_ell(a) Ellipsoid<double> a(I[0],I[1],I[2])
MK(ell,D_ell,sEll(I,d))
//@ mk_cap what="supports of the Minkowski difference of two capsules (unit direction)" ties=ignore events=none assume="in[16]>0,in[17]>0,in[40]>0,in[41]>0"
#define D_cap(a) Capsule<double> a(I[0],I[1])
MK(cap,D_cap,V3(d[0]*I[0],d[1]*I[0],d[2]*I[0]+(d[2]>0?I[1]/2:-I[1]/2)))
//@ mk_cyl what="supports of the Minkowski difference of two cylinders" ties=ignore events=none assume="in[16]>0,in[17]>0,in[40]>0,in[41]>0"
#define D_cyl(a) Cylinder<double> a(I[0],I[1])
MK(cyl,D_cyl,sCyl(I,d,0))
//@ mk_cone what="supports of the Minkowski difference of two cones" ties=ignore events=none assume="in[16]>0,in[17]>0,in[40]>0,in[41]>0"
#define D_cone(a) Cone<double> a(I[0],I[1])
MK(cone,D_cone,sCon(I,d))
//@ mk_tri what="supports of the Minkowski difference of two triangles" ties=ignore events=none
#define D_tri(a) TriangleP<double> a(gv(I),gv(I+3),gv(I+6))
PROBE impl_mk_tri(const double*in,double*out){ const double*I=in+20; D_tri(a); { const double*I=in+40; D_tri(b); Mk k(&a,&b,in); mkOut(k.m,in,out); } }
PROBE spec_mk_tri(const double*in,double*out){ mkRef(in,out,[&](const V3&d)->V3{ return sPts(in+20,3,d); },[&](const V3&d)->V3{ return sPts(in+40,3,d); }); }
//@ mk_convex what="supports of the Minkowski difference of a convex polyhedron and a sphere" ties=ignore events=none assume="in[40]>0"
PROBE impl_mk_convex(const double*in,double*out){ CVX(a,20); Sphere<double> b(in[40]); Mk k(&a,&b,in); mkOut<false>(k.m,in,out); }
PROBE spec_mk_convex(const double*in,double*out){ mkRef<false>(in,out,[&](const V3&d)->V3{ return sPts(in+20,4,d); },[&](const V3&d)->V3{ return V3(d*in[40]); }); }
// along the axis of the solid of revolution: no division by the zero radius
//@ mk_axis what="supports of a cylinder and a cone along their axis" ties=ignore events=none assume="in[16]>0,in[17]>0,in[40]>0,in[41]>0"
PROBE impl_mk_axis(const double*in,double*out){ Cylinder<double> a(in[16],in[17]); Cone<double> b(3,4); MinkowskiDiff<double> m; m.shapes[0]=&a; m.shapes[1]=&b; m.toshape0.setIdentity(); m.toshape1.setIdentity(); for(int k=0;k<2;++k){ V3 d(0,0,k?1:-1); pv(out+6*k,m.support0(d)); pv(out+6*k+3,m.support1(d)); } }
PROBE spec_mk_axis(const double*in,double*out){ for(int k=0;k<2;++k){ out[6*k]=out[6*k+1]=out[6*k+3]=out[6*k+4]=0; out[6*k+2]=(k?1:-1)*in[17]/2; out[6*k+5]=(k?1:-1)*2.; } }
//@ gjk_support what="GJK::getSupport normalises the direction" ties=ignore events=none assume="in[16]>0,in[40]>0"
PROBE impl_gjk_support(const double*in,double*out){ Sphere<double> a(in[16]),b(in[40]); GJK<double> g(10,1e-6); g.shape.shapes[0]=&a; g.shape.shapes[1]=&b; g.shape.toshape0=gt(in); g.shape.toshape1=gm(in+60); GJK<double>::SimplexV v; g.getSupport(gv(in+12),v); pv(out,v.d); pv(out+3,v.w); g.getSupport(gv(in+12),gv(in+72),v); pv(out+6,v.d); pv(out+9,v.w); }
PROBE spec_gjk_support(const double*in,double*out){ V3 d=gv(in+12); V3 u=d/rt(ip(d,d)); V3 v=gv(in+72); V3 a=u*in[16],c=t0p(in,V3(t1d(in,V3(-u))*in[40])); V3 w=a-c; pv(out,u); pv(out+3,w); pv(out+6,u); if(ip(d,v)>0) w+=v; pv(out+9,w); }
//@ extreme what="Convex::findExtremeVertex (linear search)" ties=ignore events=none
PROBE impl_extreme(const double*in,double*out){ CVX(s,20); pv(out,s.findExtremeVertex(gv(in+12))); }
PROBE spec_extreme(const double*in,double*out){ pv(out,sPts(in+20,4,gv(in+12))); }
