// C22: what a traversal holds after it was set up.  Never executed; analysed as IR.
#include "probe.h"
#define FCL_NARROWPHASE_DETAIL_INTERSECT_INL_H
#define FCL_TRAVERSAL_OCTREE_OCTREESOLVER_INL_H
#define FCL_COLLISIONRESULT_INL_H
#define FCL_COLLISION_INL_H
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/detail/collision_func_matrix.h"
#include "fcl/narrowphase/detail/distance_func_matrix.h"
#include "fcl/narrowphase/detail/conservative_advancement_func_matrix.h"
using namespace fcl; using namespace fcl::detail;
struct NS { typedef double S; int x; template<class...T> bool shapeIntersect(T&&...) const; template<class...T> bool shapeTriangleIntersect(T&&...) const; template<class...T> bool shapeDistance(T&&...) const; template<class...T> bool shapeSignedDistance(T&&...) const; template<class...T> bool shapeTriangleDistance(T&&...) const; };
typedef CollisionRequest<double> CR; typedef CollisionResult<double> CRes; typedef DistanceRequest<double> DR; typedef DistanceResult<double> DRes; typedef MotionBase<double> MB;
typedef OcTree<double> OT; typedef OcTreeSolver<NS> OS;
#define PTR(T,k) ((T*)*(void**)(in+k))
#define X1 (*PTR(const T3,2))
#define X2 (*PTR(const T3,3))
extern "C" double evp_bv(const void*,const double*); static inline double sbv(const void*s,const T3&t){ double p[12]; pm(p,t.linear()); pv(p+9,t.translation()); return evp_bv(s,p); }
// the volume a set-up computes for a shape: a function of the shape and its pose, kept in the first word
#define BVS(BV,SH) namespace fcl { template<> void computeBV<BV,SH>(const SH&s,const T3&t,BV&bv){ *(double*)&bv=sbv(&s,t); } }
#define GBV(bv) (*(const double*)&bv)
static inline void pT(double*o,const T3&t){ pm(o,t.linear()); pv(o+9,t.translation()); }
static inline double by(const bool&b){ return *(const unsigned char*)&b; }
static inline void pQ(double*o,const CR&q){ o[0]=(double)(long)q.num_max_contacts; o[1]=by(q.enable_contact); o[2]=(double)(long)q.num_max_cost_sources; o[3]=by(q.enable_cost); o[4]=by(q.use_approximate_cost); o[5]=q.gjk_solver_type; o[6]=by(q.enable_cached_gjk_guess); pv(o+7,q.cached_gjk_guess); o[10]=q.gjk_tolerance; }
static inline void pQ(double*o,const DR&q){ o[0]=by(q.enable_nearest_points); o[1]=by(q.enable_signed_distance); o[2]=q.rel_err; o[3]=q.abs_err; o[4]=q.distance_tolerance; o[5]=q.gjk_solver_type; for(int i=6;i<11;++i) o[i]=0; }
template<class N> static inline void base(double*out,const N&n,const void*a,const void*b){ out[1]=(const void*)n.model1==a; out[2]=(const void*)n.model2==b; pT(out+3,n.tf1); pT(out+15,n.tf2); }
template<class N,class R> static inline void rq(double*out,const N&n,const R*r){ pQ(out+27,n.request); out[38]=n.result==r; }
static inline void sbase(const double*in,double*out,const T3&a,const T3&b){ out[1]=out[2]=1; pT(out+3,a); pT(out+15,b); }
template<class R> static inline void srq(double*out,const R&q){ pQ(out+27,q); out[38]=1; }
template<class A> struct Mesh { enum{m=0}; static bool ok(const A*){ return true; } };
template<class V> struct Mesh<BVHModel<V>> { enum{m=1}; static bool ok(const BVHModel<V>*a){ return a->num_tris&&a->num_vertices; } };
template<class Q,class R,class N,class A,class B> static inline bool setup(const double*in,N&n,A*a,const T3&x,B*b,const T3&y){ auto*s=PTR(const NS,4); return initialize(n,(const A&)*a,x,(const B&)*b,y,s,*PTR(const Q,5),*PTR(R,6)); }
// identity poses for traversals that move the mesh itself
#define IDT T3 e,f; e.setIdentity(); f.setIdentity();
#define CQ CR,CRes
#define DQ DR,DRes
#define A0(A) PTR(A,0)
#define B0(B) PTR(B,1)
typedef Ellipsoid<double> SA; typedef Cone<double> SB;
template<class V> using M=BVHModel<V>;
typedef AABB<double> VA; typedef OBB<double> VO; typedef RSS<double> VR; typedef kIOS<double> VK; typedef OBBRSS<double> VX; typedef KDOP<double, 16> V16;
BVS(VA,SA) BVS(VO,SA) BVS(VR,SA) BVS(VK,SA) BVS(VX,SA) BVS(V16,SA) BVS(VR,SB)
#define HEAD(NM) PROBE impl_##NM(const double*in,double*out)
#define SHEAD(NM) PROBE spec_##NM(const double*in,double*out)
// shape, shape
//@ col_ss what="set-up of shape, shape collision" nonnull="0,1,2,3,4,5,6" events=none
HEAD(col_ss){ ShapeCollisionTraversalNode<SA,SB,NS> n; out[0]=initialize(n,*A0(const SA),X1,*B0(const SB),X2,PTR(const NS,4),*PTR(const CR,5),*PTR(CRes,6)); base(out,n,A0(SA),B0(SB)); rq(out,n,PTR(CRes,6)); out[39]=n.nsolver==PTR(const NS,4); out[40]=n.cost_density; }
SHEAD(col_ss){ out[0]=1; sbase(in,out,X1,X2); srq(out,*PTR(const CR,5)); out[39]=1; out[40]=A0(SA)->cost_density*B0(SB)->cost_density; }
//@ dis_ss what="set-up of shape, shape distance" nonnull="0,1,2,3,4,5,6" events=none
HEAD(dis_ss){ ShapeDistanceTraversalNode<SA,SB,NS> n; out[0]=initialize(n,*A0(const SA),X1,*B0(const SB),X2,PTR(const NS,4),*PTR(const DR,5),*PTR(DRes,6)); base(out,n,A0(SA),B0(SB)); rq(out,n,PTR(DRes,6)); out[39]=n.nsolver==PTR(const NS,4); }
SHEAD(dis_ss){ out[0]=1; sbase(in,out,X1,X2); srq(out,*PTR(const DR,5)); out[39]=1; }
//@ ca_ss what="set-up of shape, shape conservative advancement" nonnull="0,1,2,3,4,5,6" events=none
HEAD(ca_ss){ ShapeConservativeAdvancementTraversalNode<SA,SB,NS> n; out[0]=initialize(n,*A0(const SA),X1,*B0(const SB),X2,PTR(const NS,4)); base(out,n,A0(SA),B0(SB)); out[39]=n.nsolver==PTR(const NS,4); out[40]=n.toc; out[41]=n.delta_t; out[42]=GBV(n.model1_bv); out[43]=GBV(n.model2_bv); }
SHEAD(ca_ss){ out[0]=1; sbase(in,out,X1,X2); out[39]=1; out[40]=0; out[41]=1; T3 e; e.setIdentity(); out[42]=sbv(A0(SA),e); out[43]=sbv(B0(SB),e); }
// octrees
#define OCT(NM,W,NODE,A,B,Q,R) /*@*/ HEAD(NM){ NODE n; out[0]=initialize(n,*A0(const A),X1,*B0(const B),X2,PTR(const OS,4),*PTR(const Q,5),*PTR(R,6)); base(out,n,A0(A),B0(B)); rq(out,n,PTR(R,6)); out[39]=n.otsolver==PTR(const OS,4); } \
 SHEAD(NM){ out[0]=1; sbase(in,out,X1,X2); srq(out,*PTR(const Q,5)); out[39]=1; }
//@ col_so what="set-up of shape, octree collision" nonnull="0,1,2,3,4,5,6" events=none
//@ col_os what="set-up of octree, shape collision" nonnull="0,1,2,3,4,5,6" events=none
//@ col_oo what="set-up of octree, octree collision" nonnull="0,1,2,3,4,5,6" events=none
//@ col_om what="set-up of octree, mesh collision" nonnull="0,1,2,3,4,5,6" events=none
//@ col_mo what="set-up of mesh, octree collision" nonnull="0,1,2,3,4,5,6" events=none
//@ dis_so what="set-up of shape, octree distance" nonnull="0,1,2,3,4,5,6" events=none
//@ dis_os what="set-up of octree, shape distance" nonnull="0,1,2,3,4,5,6" events=none
//@ dis_oo what="set-up of octree, octree distance" nonnull="0,1,2,3,4,5,6" events=none
//@ dis_om what="set-up of octree, mesh distance" nonnull="0,1,2,3,4,5,6" events=none
//@ dis_mo what="set-up of mesh, octree distance" nonnull="0,1,2,3,4,5,6" events=none
#define COM ,
typedef ShapeOcTreeCollisionTraversalNode<SA,NS> N1; typedef OcTreeShapeCollisionTraversalNode<SA,NS> N2; typedef OcTreeCollisionTraversalNode<NS> N3; typedef OcTreeMeshCollisionTraversalNode<VR,NS> N4; typedef MeshOcTreeCollisionTraversalNode<VR,NS> N5;
typedef ShapeOcTreeDistanceTraversalNode<SA,NS> D1; typedef OcTreeShapeDistanceTraversalNode<SA,NS> D2; typedef OcTreeDistanceTraversalNode<NS> D3; typedef OcTreeMeshDistanceTraversalNode<VR,NS> D4; typedef MeshOcTreeDistanceTraversalNode<VR,NS> D5;
OCT(col_so,0,N1,SA,OT,CR,CRes)
OCT(col_os,0,N2,OT,SA,CR,CRes)
OCT(col_oo,0,N3,OT,OT,CR,CRes)
OCT(col_om,0,N4,OT,M<VR>,CR,CRes)
OCT(col_mo,0,N5,M<VR>,OT,CR,CRes)
OCT(dis_so,0,D1,SA,OT,DR,DRes)
OCT(dis_os,0,D2,OT,SA,DR,DRes)
OCT(dis_oo,0,D3,OT,OT,DR,DRes)
OCT(dis_om,0,D4,OT,M<VR>,DR,DRes)
OCT(dis_mo,0,D5,M<VR>,OT,DR,DRes)
// mesh, shape
template<class Q,class R,class N,class V> static inline void ims(const double*in,double*out,N&n,const V*a,const SA*b,bool ok,const R*r){ out[0]=ok; if(!ok) return; base(out,n,a,b); rq(out,n,r); out[39]=n.nsolver==PTR(const NS,4); out[40]=n.vertices==a->vertices; out[41]=n.tri_indices==a->tri_indices; out[43]=GBV(n.model2_bv); }
template<class V,class Q> static inline void sms(const double*in,double*out,const T3&x,const T3&y){ const M<V>*a=A0(const M<V>); bool ok=Mesh<M<V>>::ok(a); out[0]=ok; if(!ok) return; out[43]=sbv(B0(SA),y); sbase(in,out,x,y); srq(out,*PTR(const Q,5)); out[39]=out[40]=out[41]=1; }
#define MSO(NM,NODE,V,Q,R,XT) HEAD(NM){ NODE n; auto*a=A0(const M<V>); auto*b=B0(const SA); bool ok=initialize(n,*a,X1,*b,X2,PTR(const NS,4),*PTR(const Q,5),*PTR(R,6)); ims<Q,R>(in,out,n,a,b,ok,PTR(const R,6)); if(ok) { XT } }
#define CD out[42]=n.cost_density;
#define SMO(NM,V,Q,XT) SHEAD(NM){ sms<V,Q>(in,out,X1,X2); if(out[0]!=0) { XT } }
#define SCD out[42]=A0(M<VA>)->cost_density*B0(SA)->cost_density;
//@ col_ms_OBB what="set-up of OBB mesh, shape collision" nonnull="0,1,2,3,4,5,6" events=none
MSO(col_ms_OBB,MeshShapeCollisionTraversalNodeOBB<SA COM NS>,VO,CR,CRes,CD)
SMO(col_ms_OBB,VO,CR,SCD)
//@ col_ms_RSS what="set-up of RSS mesh, shape collision" nonnull="0,1,2,3,4,5,6" events=none
MSO(col_ms_RSS,MeshShapeCollisionTraversalNodeRSS<SA COM NS>,VR,CR,CRes,CD)
SMO(col_ms_RSS,VR,CR,SCD)
//@ col_ms_kIOS what="set-up of kIOS mesh, shape collision" nonnull="0,1,2,3,4,5,6" events=none
MSO(col_ms_kIOS,MeshShapeCollisionTraversalNodekIOS<SA COM NS>,VK,CR,CRes,CD)
SMO(col_ms_kIOS,VK,CR,SCD)
//@ col_ms_OBBRSS what="set-up of OBBRSS mesh, shape collision" nonnull="0,1,2,3,4,5,6" events=none
MSO(col_ms_OBBRSS,MeshShapeCollisionTraversalNodeOBBRSS<SA COM NS>,VX,CR,CRes,CD)
SMO(col_ms_OBBRSS,VX,CR,SCD)
//@ dis_ms_RSS what="set-up of RSS mesh, shape distance" nonnull="0,1,2,3,4,5,6" events=none
MSO(dis_ms_RSS,MeshShapeDistanceTraversalNodeRSS<SA COM NS>,VR,DR,DRes,)
SMO(dis_ms_RSS,VR,DR,)
//@ dis_ms_kIOS what="set-up of kIOS mesh, shape distance" nonnull="0,1,2,3,4,5,6" events=none
MSO(dis_ms_kIOS,MeshShapeDistanceTraversalNodekIOS<SA COM NS>,VK,DR,DRes,)
SMO(dis_ms_kIOS,VK,DR,)
//@ dis_ms_OBBRSS what="set-up of OBBRSS mesh, shape distance" nonnull="0,1,2,3,4,5,6" events=none
MSO(dis_ms_OBBRSS,MeshShapeDistanceTraversalNodeOBBRSS<SA COM NS>,VX,DR,DRes,)
SMO(dis_ms_OBBRSS,VX,DR,)
// the mesh is moved to the world frame; in its own frame (identity pose) it stays as it is
#define MSI(NM,NODE,V,Q,R,XT) HEAD(NM){ NODE n; auto*a=A0(M<V>); auto*b=B0(const SA); IDT bool ok=initialize(n,*a,e,*b,X2,PTR(const NS,4),*PTR(const Q,5),*PTR(R,6)); ims<Q,R>(in,out,n,a,b,ok,PTR(const R,6)); if(ok) { XT } }
#define SMI(NM,V,Q,XT) SHEAD(NM){ IDT sms<V,Q>(in,out,e,X2); if(out[0]!=0) { XT } }
//@ col_ms_AABB what="set-up of AABB mesh (identity pose), shape collision" nonnull="0,1,2,3,4,5,6" events=none
MSI(col_ms_AABB,MeshShapeCollisionTraversalNode<VA COM SA COM NS>,VA,CR,CRes,CD)
SMI(col_ms_AABB,VA,CR,SCD)
//@ col_ms_K16 what="set-up of KDOP16 mesh (identity pose), shape collision" nonnull="0,1,2,3,4,5,6" events=none
MSI(col_ms_K16,MeshShapeCollisionTraversalNode<V16 COM SA COM NS>,V16,CR,CRes,CD)
SMI(col_ms_K16,V16,CR,SCD)
// mesh, mesh
template<class V> static inline bool mok(const double*in){ return Mesh<M<V>>::ok(A0(const M<V>))&&Mesh<M<V>>::ok(B0(const M<V>)); }
template<class N,class V,class R> static inline void imm(const double*in,double*out,N&n,const V*a,const V*b,bool ok,const R*r){ out[0]=ok; if(!ok) return; base(out,n,a,b); rq(out,n,r); out[39]=n.vertices1==a->vertices; out[40]=n.vertices2==b->vertices; out[41]=n.tri_indices1==a->tri_indices; out[42]=n.tri_indices2==b->tri_indices; }
template<class V,class Q> static inline void smm(const double*in,double*out,const T3&x,const T3&y){ bool ok=mok<V>(in); out[0]=ok; if(!ok) return; sbase(in,out,x,y); srq(out,*PTR(const Q,5)); out[39]=out[40]=out[41]=out[42]=1; }
static inline void rel(double*o,const T3&a,const T3&b){ double A[12],B[12],d[3]; pT(A,a); pT(B,b); for(int i=0;i<3;++i) for(int j=0;j<3;++j) o[3*i+j]=A[i]*B[j]+A[3+i]*B[3+j]+A[6+i]*B[6+j]; for(int i=0;i<3;++i) d[i]=B[9+i]-A[9+i]; rotT(A,d,o+9); }
#define MMO(NM,NODE,V,Q,R,XT) HEAD(NM){ NODE n; auto*a=A0(const M<V>); auto*b=B0(const M<V>); bool ok=initialize(n,*a,X1,*b,X2,*PTR(const Q,5),*PTR(R,6)); imm(in,out,n,a,b,ok,PTR(const R,6)); if(ok) { XT } }
#define SMM(NM,V,Q,XT) SHEAD(NM){ smm<V,Q>(in,out,X1,X2); if(out[0]!=0) { XT } }
#define RT pm(out+44,n.R); pv(out+53,n.T); out[43]=n.cost_density;
#define RF pT(out+44,n.tf);
#define SRT rel(out+44,X1,X2); out[43]=A0(M<VA>)->cost_density*B0(M<VA>)->cost_density;
#define SRF rel(out+44,X1,X2);
//@ col_mm_OBB what="set-up of OBB mesh, mesh collision" nonnull="0,1,2,3,4,5,6" events=none
MMO(col_mm_OBB,MeshCollisionTraversalNodeOBB<double>,VO,CR,CRes,RT)
SMM(col_mm_OBB,VO,CR,SRT)
//@ col_mm_RSS what="set-up of RSS mesh, mesh collision" nonnull="0,1,2,3,4,5,6" events=none
MMO(col_mm_RSS,MeshCollisionTraversalNodeRSS<double>,VR,CR,CRes,RT)
SMM(col_mm_RSS,VR,CR,SRT)
//@ col_mm_kIOS what="set-up of kIOS mesh, mesh collision" nonnull="0,1,2,3,4,5,6" events=none
MMO(col_mm_kIOS,MeshCollisionTraversalNodekIOS<double>,VK,CR,CRes,RT)
SMM(col_mm_kIOS,VK,CR,SRT)
//@ col_mm_OBBRSS what="set-up of OBBRSS mesh, mesh collision" nonnull="0,1,2,3,4,5,6" events=none
MMO(col_mm_OBBRSS,MeshCollisionTraversalNodeOBBRSS<double>,VX,CR,CRes,RT)
SMM(col_mm_OBBRSS,VX,CR,SRT)
//@ dis_mm_RSS what="set-up of RSS mesh, mesh distance" nonnull="0,1,2,3,4,5,6" events=none
MMO(dis_mm_RSS,MeshDistanceTraversalNodeRSS<double>,VR,DR,DRes,RF)
SMM(dis_mm_RSS,VR,DR,SRF)
//@ dis_mm_kIOS what="set-up of kIOS mesh, mesh distance" nonnull="0,1,2,3,4,5,6" events=none
MMO(dis_mm_kIOS,MeshDistanceTraversalNodekIOS<double>,VK,DR,DRes,RF)
SMM(dis_mm_kIOS,VK,DR,SRF)
//@ dis_mm_OBBRSS what="set-up of OBBRSS mesh, mesh distance" nonnull="0,1,2,3,4,5,6" events=none
MMO(dis_mm_OBBRSS,MeshDistanceTraversalNodeOBBRSS<double>,VX,DR,DRes,RF)
SMM(dis_mm_OBBRSS,VX,DR,SRF)
#define MMI(NM,NODE,V,Q,R,XT) HEAD(NM){ NODE n; auto*a=A0(M<V>); auto*b=B0(M<V>); IDT bool ok=initialize(n,*a,e,*b,f,*PTR(const Q,5),*PTR(R,6)); imm(in,out,n,a,b,ok,PTR(const R,6)); if(ok) { XT } }
#define SMMI(NM,V,Q,XT) SHEAD(NM){ IDT smm<V,Q>(in,out,e,f); if(out[0]!=0) { XT } }
#define CDM out[43]=n.cost_density;
#define SCDM out[43]=A0(M<VA>)->cost_density*B0(M<VA>)->cost_density;
//@ col_mm_AABB what="set-up of AABB mesh, mesh collision (identity poses)" nonnull="0,1,2,3,4,5,6" events=none
MMI(col_mm_AABB,MeshCollisionTraversalNode<VA>,VA,CR,CRes,CDM)
SMMI(col_mm_AABB,VA,CR,SCDM)
//@ dis_mm_AABB what="set-up of AABB mesh, mesh distance (identity poses)" nonnull="0,1,2,3,4,5,6" events=none
MMI(dis_mm_AABB,MeshDistanceTraversalNode<VA>,VA,DR,DRes,)
SMMI(dis_mm_AABB,VA,DR,)
