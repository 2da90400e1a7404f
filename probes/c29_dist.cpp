// C29: distance traversals: bounds, stopping, leaf tests, reported minimum.  Never executed; analysed as IR.
#define CHK 9
#include "mocks.h"
#include "fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/distance/mesh_shape_distance_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/distance/shape_mesh_distance_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/distance/shape_distance_traversal_node.h"
typedef DistanceResult<double> DRes; typedef DistanceRequest<double> DR;
extern "C" double evp_id(const void*);
// in: 0,1 geometries, 2,3 vertices, 4,5 triangles, 6,7 nodes or ids, 8 nearest points wanted, 9 statistics, 10 signed, 11 bound c, 12 rel_err, 13 abs_err, 14.. tf1, 26.. tf2, 38.. tf, 50.. result (11 words), 62.. volume of the shape
struct RV { double m; const void*o1,*o2; long b1,b2; double p[6]; };
static inline RV rin(const double*in){ RV r; r.m=in[50]; r.o1=PTR(void,51); r.o2=PTR(void,52); r.b1=LNG(53); r.b2=LNG(54); for(int k=0;k<6;++k) r.p[k]=in[55+k]; return r; }
static inline void set(DRes&R,const RV&r){ typedef const CollisionGeometry<double>*G; R.min_distance=r.m; R.o1=(G)r.o1; R.o2=(G)r.o2; R.b1=r.b1; R.b2=r.b2; for(int k=0;k<3;++k){ R.nearest_points[0][k]=r.p[k]; R.nearest_points[1][k]=r.p[3+k]; } }
static inline void rout(double*out,const RV&r){ out[0]=r.m; out[1]=evp_id(r.o1); out[2]=evp_id(r.o2); out[3]=(double)r.b1; out[4]=(double)r.b2; for(int k=0;k<6;++k) out[5+k]=r.p[k]; }
static inline void rout(double*out,const DRes&R){ out[0]=R.min_distance; out[1]=evp_id(R.o1); out[2]=evp_id(R.o2); out[3]=(double)R.b1; out[4]=(double)R.b2; pv(out+5,R.nearest_points[0]); pv(out+8,R.nearest_points[1]); }
// the reference update: strictly smaller distances replace everything that is known
static inline void upd(RV&r,double d,const void*a,const void*b,long i,long j,const double*p){ if(d<r.m){ r.m=d; r.o1=a; r.o2=b; r.b1=i; r.b2=j; if(p) for(int k=0;k<6;++k) r.p[k]=p[k]; } }
//! p+drop ^fcl::RSS<double>::distance\( name=rss_distance
//! p+drop ^fcl::AABB<double>::distance\( name=aabb_distance
//! p+drop ^fcl::kIOS<double>::distance\( name=kios_distance
//! p+drop ^fcl::OBBRSS<double>::distance\( name=obbrss_distance
//! p+drop ^(double|fcl::\S+::S|\S+)\sfcl::distance<double,.*fcl::RSS<double> name=rss_distance_rt
//! p+drop ^(double|fcl::\S+::S|\S+)\sfcl::distance<double,.*fcl::kIOS<double> name=kios_distance_rt
//! p+drop ^(double|fcl::\S+::S|\S+)\sfcl::distance<double,.*fcl::OBBRSS<double> name=obbrss_distance_rt
#define STAT n.enable_statistics=BOOL(9); n.request.enable_nearest_points=BOOL(8); n.request.enable_signed_distance=BOOL(10); n.tf1=gt(in+14); n.tf2=gt(in+26); DRes R; set(R,rin(in)); n.result=&R; n.rel_err=in[12]; n.abs_err=in[13]
#define SMM(BV) n.model1=PTR(BVHModel<BV>,0); n.model2=PTR(BVHModel<BV>,1); n.vertices1=PTR(V3,2); n.vertices2=PTR(V3,3); n.tri_indices1=PTR(Triangle,4); n.tri_indices2=PTR(Triangle,5); STAT
#define SMS(BV) n.model1=PTR(BVHModel<BV>,0); n.model2=PTR(MS,1); n.vertices=PTR(V3,2); n.tri_indices=PTR(Triangle,4); MSolver sv; n.nsolver=&sv; STAT
#define SSM(BV) n.model1=PTR(MS,0); n.model2=PTR(BVHModel<BV>,1); n.vertices=PTR(V3,2); n.tri_indices=PTR(Triangle,4); MSolver sv; n.nsolver=&sv; STAT
// the distance of two triangles; the second one placed by rt
static inline void tri2(const double*in,RV&r,int i,int j,const double*rt){ V3*v=PTR(V3,2),*w=PTR(V3,3); const Triangle&s=PTR(Triangle,4)[i],&t=PTR(Triangle,5)[j]; double a[30]; for(int k=0;k<3;++k){ pv(a+3*k,v[s.vids[k]]); pv(a+9+3*k,w[t.vids[k]]); } for(int k=0;k<12;++k)a[18+k]=rt[k];
  double h=evp_tdist(a); double p[6]; for(int k=0;k<6;++k) p[k]=evp_out(h,1+k); upd(r,evp_out(h,0),PTR(void,0),PTR(void,1),i,j,BOOL(8)?p:0); }
static const double ID[12]={1,0,0,0,1,0,0,0,1,0,0,0};
template<class BV> static inline int prim(const BVHModel<BV>*m,int b){ return -(m->bvs[b].first_child+1); }
template<class BV> static inline void ref_mm(const double*in,double*out,const double*rt){ RV r=rin(in); tri2(in,r,prim(PTR(BVHModel<BV>,0),INT(6)),prim(PTR(BVHModel<BV>,1),INT(7)),rt); rout(out,r); }
static inline void ref_stop(const double*in,double*out){ double m=in[50],c=in[11]; out[0]=(c>=m-in[13]) && (c*(1+in[12])>=m); }
#define LEAF(NM,N,SETUP,REF) PROBE impl_leaf_##NM(const double*in,double*out){ N n; SETUP; n.leafTesting(INT(6),INT(7)); rout(out,R); } PROBE spec_leaf_##NM(const double*in,double*out){ REF; }
#define STOP(NM,N,SETUP) PROBE impl_stop_##NM(const double*in,double*out){ N n; SETUP; out[0]=n.canStop(in[11]); } PROBE spec_stop_##NM(const double*in,double*out){ ref_stop(in,out); }
#define BVT(NM,N,SETUP,REF) PROBE impl_bv_##NM(const double*in,double*out){ N n; SETUP; n.enable_statistics=false; out[0]=n.BVTesting(INT(6),INT(7)); } PROBE spec_bv_##NM(const double*in,double*out){ N n; SETUP; n.enable_statistics=false; out[0]=REF; }
#define M1(BV) PTR(BVHModel<BV>,0)->bvs[INT(6)].bv
#define M2(BV) PTR(BVHModel<BV>,1)->bvs[INT(7)].bv
// ------------------------------------------------------------------ mesh, mesh
typedef AABB<double> VA; typedef RSS<double> VR; typedef kIOS<double> VK; typedef OBBRSS<double> VX;
struct NA : MeshDistanceTraversalNode<VA> {};
//@ leaf_aabb what="leaf test, meshes of boxes" nonnull="0,1,2,3,4,5,51,52,71,72"
LEAF(aabb,NA,SMM(VA),ref_mm<VA>(in,out,ID))
//@ leaf_rss what="leaf test, meshes of RSS" nonnull="0,1,2,3,4,5,51,52,71,72" 
//@ leaf_kios what="leaf test, meshes of kIOS" nonnull="0,1,2,3,4,5,51,52,71,72" 
//@ leaf_obbrss what="leaf test, meshes of OBBRSS" nonnull="0,1,2,3,4,5,51,52,71,72" 
LEAF(rss,MeshDistanceTraversalNodeRSS<double>,SMM(VR);n.tf=gt(in+38),ref_mm<VR>(in,out,in+38))
LEAF(kios,MeshDistanceTraversalNodekIOS<double>,SMM(VK);n.tf=gt(in+38),ref_mm<VK>(in,out,in+38))
LEAF(obbrss,MeshDistanceTraversalNodeOBBRSS<double>,SMM(VX);n.tf=gt(in+38),ref_mm<VX>(in,out,in+38))
//@ stop_aabb what="stopping rule, meshes of boxes" nonnull="0,1,2,3,4,5,51,52,71,72" events=none
//@ stop_rss what="stopping rule, meshes of RSS" nonnull="0,1,2,3,4,5,51,52,71,72" events=none
//@ stop_kios what="stopping rule, meshes of kIOS" nonnull="0,1,2,3,4,5,51,52,71,72" events=none
//@ stop_obbrss what="stopping rule, meshes of OBBRSS" nonnull="0,1,2,3,4,5,51,52,71,72" events=none
STOP(aabb,NA,SMM(VA))
STOP(rss,MeshDistanceTraversalNodeRSS<double>,SMM(VR))
STOP(kios,MeshDistanceTraversalNodekIOS<double>,SMM(VK))
STOP(obbrss,MeshDistanceTraversalNodeOBBRSS<double>,SMM(VX))
//@ bv_aabb what="bound, meshes of boxes" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ bv_rss what="bound, meshes of RSS" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ bv_kios what="bound, meshes of kIOS" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ bv_obbrss what="bound, meshes of OBBRSS" nonnull="0,1,2,3,4,5,51,52,71,72"
BVT(aabb,NA,SMM(VA),M1(VA).distance(M2(VA),nullptr,nullptr))
BVT(rss,MeshDistanceTraversalNodeRSS<double>,SMM(VR);n.tf=gt(in+38),distance(n.tf.linear(),n.tf.translation(),M1(VR),M2(VR)))
BVT(kios,MeshDistanceTraversalNodekIOS<double>,SMM(VK);n.tf=gt(in+38),distance(n.tf.linear(),n.tf.translation(),M1(VK),M2(VK)))
BVT(obbrss,MeshDistanceTraversalNodeOBBRSS<double>,SMM(VX);n.tf=gt(in+38),distance(n.tf.linear(),n.tf.translation(),M1(VX),M2(VX)))
// start and end of a run: the first triangles give a first distance; nearest points found by the run (in the frame of the first mesh) go to the world frame once
template<class N,class BV> static inline void runs(const double*in,double*out){ N n; SMM(BV); n.tf=gt(in+38); n.preprocess(); rout(out,R); RV x; x.m=in[70]; x.o1=PTR(void,71); x.o2=PTR(void,72); x.b1=LNG(73); x.b2=LNG(74); for(int k=0;k<6;++k)x.p[k]=in[75+k];
  if(BOOL(69)) { DRes Q; set(Q,x); R.update(Q); } n.postprocess(); rout(out+11,R); }
static inline void refruns(const double*in,double*out){ RV r=rin(in); double m0=r.m; tri2(in,r,0,0,in+38); rout(out,r); double p[6]; for(int k=0;k<6;++k)p[k]=in[75+k]; if(BOOL(69)) upd(r,in[70],PTR(void,71),PTR(void,72),LNG(73),LNG(74),p);
  if(BOOL(8) && r.m<m0 && r.o1==PTR(void,0) && r.o2==PTR(void,1)) { double q[6]; app(in+14,r.p,q); app(in+14,r.p+3,q+3); for(int k=0;k<6;++k) r.p[k]=q[k]; } rout(out+11,r); }
#define RUN(NM,N,BV) PROBE impl_run_##NM(const double*in,double*out){ runs<N,BV>(in,out); } PROBE spec_run_##NM(const double*in,double*out){ refruns(in,out); }
//@ run_rss what="start and end of a run, meshes of RSS" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ run_kios what="start and end of a run, meshes of kIOS" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ run_obbrss what="start and end of a run, meshes of OBBRSS" nonnull="0,1,2,3,4,5,51,52,71,72"
RUN(rss,MeshDistanceTraversalNodeRSS<double>,VR)
RUN(kios,MeshDistanceTraversalNodekIOS<double>,VK)
RUN(obbrss,MeshDistanceTraversalNodeOBBRSS<double>,VX)
// ------------------------------------------------------------------ mesh and shape
static inline void std1(const double*in,RV&r,int i,const MS*s,const double*ts,const double*tm,bool swap){ V3*v=PTR(V3,2); const Triangle&t=PTR(Triangle,4)[i]; double a[33]; for(int k=0;k<3;++k) pv(a+3*k,v[t.vids[k]]); for(int k=0;k<12;++k){ a[9+k]=ts[k]; a[21+k]=tm[k]; }
  double h=evp_std(s,a),p[6]; for(int k=0;k<3;++k){ p[swap?k:3+k]=evp_out(h,1+k); p[swap?3+k:k]=evp_out(h,4+k); } upd(r,evp_out(h,7),PTR(void,0),PTR(void,1),swap?-1:i,swap?i:-1,p); }
template<class BV> static inline void ref_ms(const double*in,double*out,const double*tm,int i){ RV r=rin(in); std1(in,r,i,PTR(MS,1),in+26,tm,false); rout(out,r); }
template<class BV> static inline void ref_sm(const double*in,double*out,const double*tm,int i){ RV r=rin(in); std1(in,r,i,PTR(MS,0),in+14,tm,true); rout(out,r); }
typedef MeshShapeDistanceTraversalNode<VA,MS,MSolver> NMA; typedef ShapeMeshDistanceTraversalNode<MS,VA,MSolver> NSA;
typedef MeshShapeDistanceTraversalNodeRSS<MS,MSolver> NMR; typedef MeshShapeDistanceTraversalNodekIOS<MS,MSolver> NMK; typedef MeshShapeDistanceTraversalNodeOBBRSS<MS,MSolver> NMX;
//@ leaf_ms_aabb what="leaf test, mesh of boxes and shape" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ leaf_sm_aabb what="leaf test, shape and mesh of boxes" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ leaf_ms_rss what="leaf test, mesh of RSS and shape" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ leaf_ms_kios what="leaf test, mesh of kIOS and shape" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ leaf_ms_obbrss what="leaf test, mesh of OBBRSS and shape" nonnull="0,1,2,3,4,5,51,52,71,72"
LEAF(ms_aabb,NMA,SMS(VA),ref_ms<VA>(in,out,ID,prim(PTR(BVHModel<VA>,0),INT(6))))
LEAF(sm_aabb,NSA,SSM(VA),ref_sm<VA>(in,out,ID,prim(PTR(BVHModel<VA>,1),INT(7))))
LEAF(ms_rss,NMR,SMS(VR),ref_ms<VR>(in,out,in+14,prim(PTR(BVHModel<VR>,0),INT(6))))
LEAF(ms_kios,NMK,SMS(VK),ref_ms<VK>(in,out,in+14,prim(PTR(BVHModel<VK>,0),INT(6))))
LEAF(ms_obbrss,NMX,SMS(VX),ref_ms<VX>(in,out,in+14,prim(PTR(BVHModel<VX>,0),INT(6))))
//@ stop_ms_aabb what="stopping rule, mesh of boxes and shape" nonnull="0,1,2,3,4,5,51,52,71,72" events=none
//@ stop_sm_aabb what="stopping rule, shape and mesh of boxes" nonnull="0,1,2,3,4,5,51,52,71,72" events=none
//@ stop_ms_rss what="stopping rule, mesh of RSS and shape" nonnull="0,1,2,3,4,5,51,52,71,72" events=none
//@ stop_ms_kios what="stopping rule, mesh of kIOS and shape" nonnull="0,1,2,3,4,5,51,52,71,72" events=none
//@ stop_ms_obbrss what="stopping rule, mesh of OBBRSS and shape" nonnull="0,1,2,3,4,5,51,52,71,72" events=none
STOP(ms_aabb,NMA,SMS(VA))
STOP(sm_aabb,NSA,SSM(VA))
STOP(ms_rss,NMR,SMS(VR))
STOP(ms_kios,NMK,SMS(VK))
STOP(ms_obbrss,NMX,SMS(VX))
#define PRE(NM,N,BV) PROBE impl_pre_##NM(const double*in,double*out){ N n; SMS(BV); n.preprocess(); rout(out,R); n.postprocess(); rout(out+11,R); } PROBE spec_pre_##NM(const double*in,double*out){ ref_ms<BV>(in,out,in+14,0); for(int k=0;k<11;++k) out[11+k]=out[k]; }
//@ pre_rss what="start and end of a run, mesh of RSS and shape" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ pre_kios what="start and end of a run, mesh of kIOS and shape" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ pre_obbrss what="start and end of a run, mesh of OBBRSS and shape" nonnull="0,1,2,3,4,5,51,52,71,72"
PRE(rss,NMR,VR)
PRE(kios,NMK,VK)
PRE(obbrss,NMX,VX)
#define MBV(BV) BV v; for(unsigned k=0;k<sizeof(BV)/8;++k) ((double*)&v)[k]=in[90+k]
//@ bv_ms_aabb what="bound, mesh of boxes and shape" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ bv_sm_aabb what="bound, shape and mesh of boxes" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ bv_ms_rss what="bound, mesh of RSS and shape" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ bv_ms_kios what="bound, mesh of kIOS and shape" nonnull="0,1,2,3,4,5,51,52,71,72"
//@ bv_ms_obbrss what="bound, mesh of OBBRSS and shape" nonnull="0,1,2,3,4,5,51,52,71,72"
template<class BV> static inline BV inbv(const double*in){ MBV(BV); return v; }
BVT(ms_aabb,NMA,SMS(VA);n.model2_bv=inbv<VA>(in),M1(VA).distance(n.model2_bv))
BVT(sm_aabb,NSA,SSM(VA);n.model1_bv=inbv<VA>(in),n.model1_bv.distance(M2(VA)))
BVT(ms_rss,NMR,SMS(VR);n.model2_bv=inbv<VR>(in),distance(n.tf1.linear(),n.tf1.translation(),n.model2_bv,M1(VR)))
BVT(ms_kios,NMK,SMS(VK);n.model2_bv=inbv<VK>(in),distance(n.tf1.linear(),n.tf1.translation(),n.model2_bv,M1(VK)))
BVT(ms_obbrss,NMX,SMS(VX);n.model2_bv=inbv<VX>(in),distance(n.tf1.linear(),n.tf1.translation(),n.model2_bv,M1(VX)))
// ------------------------------------------------------------------ shape, shape
typedef ShapeDistanceTraversalNode<MS,MS2,MSolver> NSS;
//@ leaf_ss what="leaf test, two shapes" nonnull="0,1,2,3,4,5,51,52,71,72"
PROBE impl_leaf_ss(const double*in,double*out){ NSS n; n.model1=PTR(MS,0); n.model2=PTR(MS2,1); n.request.enable_signed_distance=BOOL(10); n.request.enable_nearest_points=BOOL(8); n.enable_statistics=BOOL(9); n.tf1=gt(in+14); n.tf2=gt(in+26); DRes R; set(R,rin(in)); n.result=&R; MSolver sv; n.nsolver=&sv; n.leafTesting(0,0); rout(out,R); }
PROBE spec_leaf_ss(const double*in,double*out){ RV r=rin(in); double a[24]; for(int k=0;k<24;++k) a[k]=in[14+k]; double h=BOOL(10)?evp_ssd(PTR(MS,0),PTR(MS2,1),a):evp_sd(PTR(MS,0),PTR(MS2,1),a); double p[6]; for(int k=0;k<6;++k)p[k]=evp_out(h,1+k); upd(r,evp_out(h,7),PTR(void,0),PTR(void,1),-1,-1,p); rout(out,r); }
