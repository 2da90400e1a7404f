// C22, C24, C30, C31: entry points (callbacks, object-level and geometry-level queries, collision objects).  Never executed; analysed as IR.
#include "probe.h"
// template bodies that a group does not analyse stay undefined (their include guards are set)
#include <memory>
#if CHK==1
#define FCL_COLLISION_INL_H
#define FCL_DISTANCE_INL_H
#define FCL_CONTINUOUS_COLLISION_INL_H
#define FCL_COLLISIONRESULT_INL_H
#endif
#if CHK==5
#define FCL_CCD_TAYLOR_MATRIX_INL_H
#define FCL_CCD_TAYLOR_VECTOR_INL_H
#define FCL_CCD_TAYLOR_MODEL_INL_H
#endif
#define FCL_COLLISION_FUNC_MATRIX_INL_H
#define FCL_DISTANCE_FUNC_MATRIX_INL_H
#define FCL_CONSERVATIVE_ADVANCEMENT_INL_H
#include "fcl/math/bv/utility.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/narrowphase/continuous_collision.h"
#include "fcl/broadphase/default_broadphase_callbacks.h"
using namespace fcl; using namespace fcl::detail;
#define PTR(T,k) (*(T**)(in+(k)))
typedef CollisionObject<double> CO; typedef CollisionGeometry<double> CG; typedef ContinuousCollisionObject<double> CCO;
typedef CollisionRequest<double> CR; typedef CollisionResult<double> CRes; typedef DistanceRequest<double> DR; typedef DistanceResult<double> DRes; typedef ContinuousCollisionRequest<double> CCR; typedef ContinuousCollisionResult<double> CCRes;
typedef GJKSolver_libccd<double> SL; typedef GJKSolver_indep<double> SI; typedef MotionBase<double> MB;
//! p+drop ^fcl::constants<double>::
//! n std::operator<<
// ------------------------------------------------------------------ CHK=1: default callbacks (the queries are opaque; they change the result)
#if CHK==1
extern "C" { unsigned long evw_query(const void*,const void*,const void*,const void*); double evw_dquery_out4(const void*,const void*,const void*,const void*,double*); long evr_num(const void*); }
namespace fcl { template<> CollisionResult<double>::CollisionResult(){} template<> size_t CollisionResult<double>::numContacts() const { return evr_num(this); } template<> bool CollisionResult<double>::isCollision() const { return evr_num(this)>0; }
template<> size_t collide(const CO*a,const CO*b,const CR&q,CRes&r){ return evw_query(a,b,&q,&r); }
template<> double distance(const CO*a,const CO*b,const DR&q,DRes&r){ return evw_dquery_out4(a,b,&q,&r,&r.min_distance); }
template<> double collide(const CCO*a,const CCO*b,const CCR&q,CCRes&r){ return evw_query(a,b,&q,&r); }
}
//@ cb_col what="DefaultCollisionFunction" nonnull="0,1,2" if=CHK:1
PROBE impl_cb_col(const double*in,double*out){ out[0]=DefaultCollisionFunction(PTR(CO,0),PTR(CO,1),PTR(void,2)); out[1]=PTR(DefaultCollisionData<double>,2)->done; }
PROBE spec_cb_col(const double*in,double*out){ auto*d=PTR(DefaultCollisionData<double>,2); if(!d->done) { fcl::collide(PTR(CO,0),PTR(CO,1),d->request,d->result); long n=evr_num(&d->result); if(!d->request.enable_cost && n>0 && n>=(long)d->request.num_max_contacts) d->done=true; } out[0]=d->done; out[1]=d->done; }
//@ cb_dist what="DefaultDistanceFunction" nonnull="0,1,2" if=CHK:1
PROBE impl_cb_dist(const double*in,double*out){ double v=in[5]; out[0]=DefaultDistanceFunction(PTR(CO,0),PTR(CO,1),PTR(void,2),v); out[1]=v; out[2]=PTR(DefaultDistanceData<double>,2)->done; }
PROBE spec_cb_dist(const double*in,double*out){ auto*d=PTR(DefaultDistanceData<double>,2); if(!d->done) { fcl::distance(PTR(CO,0),PTR(CO,1),d->request,d->result); double m=d->result.min_distance; out[0]=m<=0||d->done; out[1]=m; out[2]=d->done; } else { out[0]=1; out[1]=d->result.min_distance; out[2]=d->done; } }
//@ cb_cont what="DefaultContinuousCollisionFunction" nonnull="0,1,2" if=CHK:1
PROBE impl_cb_cont(const double*in,double*out){ out[0]=DefaultContinuousCollisionFunction(PTR(CCO,0),PTR(CCO,1),PTR(void,2)); out[1]=PTR(DefaultContinuousCollisionData<double>,2)->done; }
PROBE spec_cb_cont(const double*in,double*out){ auto*d=PTR(DefaultContinuousCollisionData<double>,2); if(!d->done) fcl::collide(PTR(CCO,0),PTR(CCO,1),d->request,d->result); out[0]=d->done; out[1]=d->done; }
#endif

// ------------------------------------------------------------------ CHK=2: object-level and geometry-level entry points; the solver-level query is opaque
#if CHK==2
//! w+drop ^unsigned\slong\sfcl::collide<double,\sfcl::detail::GJKSolver_\w+<double>\s?>\(fcl::CollisionGeometry if=CHK:2
//! w+drop ^fcl::detail::GJKSolver_\w+<double>::S\sfcl::distance<fcl::detail::GJKSolver_\w+<double>\s?>\(fcl::CollisionGeometry if=CHK:2
#define RQ(T) (*PTR(const T,4))
#define RS(T) (*PTR(T,5))
#define G0 PTR(const CG,0)
#define G1 PTR(const CG,1)
#define T0 (*PTR(const T3,2))
#define T1 (*PTR(const T3,3))
static inline size_t rcol(const CG*a,const T3&t,const CG*b,const T3&u,const CR&q,CRes&r){ if(q.gjk_solver_type==GST_LIBCCD){ SL s; s.collision_tolerance=q.gjk_tolerance; return fcl::collide(a,t,b,u,&s,q,r); } if(q.gjk_solver_type==GST_INDEP){ SI s; s.gjk_tolerance=q.gjk_tolerance; s.epa_tolerance=q.gjk_tolerance; return fcl::collide(a,t,b,u,&s,q,r); } return -1; }
static inline double rdis(const CG*a,const T3&t,const CG*b,const T3&u,const DR&q,DRes&r){ if(q.gjk_solver_type==GST_LIBCCD){ SL s; s.distance_tolerance=q.distance_tolerance; return fcl::distance(a,t,b,u,&s,q,r); } if(q.gjk_solver_type==GST_INDEP){ SI s; s.gjk_tolerance=q.distance_tolerance; return fcl::distance(a,t,b,u,&s,q,r); } return -1; }
static inline const CG* geo(const CO*o){ return o->cgeom_const.get(); }
//@ col_obj what="collide(object, object)" nonnull="0,1,4,5" if=CHK:2
PROBE impl_col_obj(const double*in,double*out){ out[0]=(long)fcl::collide(PTR(const CO,0),PTR(const CO,1),RQ(CR),RS(CRes)); }
PROBE spec_col_obj(const double*in,double*out){ const CO*a=PTR(const CO,0),*b=PTR(const CO,1); out[0]=(long)rcol(geo(a),a->t,geo(b),b->t,RQ(CR),RS(CRes)); }
//@ col_geo what="collide(geometry, pose, geometry, pose)" nonnull="0,1,2,3,4,5" if=CHK:2
PROBE impl_col_geo(const double*in,double*out){ out[0]=(long)fcl::collide(G0,T0,G1,T1,RQ(CR),RS(CRes)); }
PROBE spec_col_geo(const double*in,double*out){ out[0]=(long)rcol(G0,T0,G1,T1,RQ(CR),RS(CRes)); }
//@ dis_obj what="distance(object, object)" nonnull="0,1,4,5" if=CHK:2
PROBE impl_dis_obj(const double*in,double*out){ out[0]=fcl::distance(PTR(const CO,0),PTR(const CO,1),RQ(DR),RS(DRes)); }
PROBE spec_dis_obj(const double*in,double*out){ const CO*a=PTR(const CO,0),*b=PTR(const CO,1); out[0]=rdis(geo(a),a->t,geo(b),b->t,RQ(DR),RS(DRes)); }
//@ dis_geo what="distance(geometry, pose, geometry, pose)" nonnull="0,1,2,3,4,5" if=CHK:2
PROBE impl_dis_geo(const double*in,double*out){ out[0]=fcl::distance(G0,T0,G1,T1,RQ(DR),RS(DRes)); }
PROBE spec_dis_geo(const double*in,double*out){ out[0]=rdis(G0,T0,G1,T1,RQ(DR),RS(DRes)); }
//@ col_objs what="collide(object, object, solver)" nonnull="0,1,4,5,6" if=CHK:2
PROBE impl_col_objs(const double*in,double*out){ out[0]=(long)fcl::collide(PTR(const CO,0),PTR(const CO,1),PTR(const SL,6),RQ(CR),RS(CRes)); }
PROBE spec_col_objs(const double*in,double*out){ const CO*a=PTR(const CO,0),*b=PTR(const CO,1); out[0]=(long)fcl::collide(geo(a),a->t,geo(b),b->t,PTR(const SL,6),RQ(CR),RS(CRes)); }
//@ dis_objs what="distance(object, object, solver)" nonnull="0,1,4,5,6" if=CHK:2
PROBE impl_dis_objs(const double*in,double*out){ out[0]=fcl::distance(PTR(const CO,0),PTR(const CO,1),PTR(const SL,6),RQ(DR),RS(DRes)); }
PROBE spec_dis_objs(const double*in,double*out){ const CO*a=PTR(const CO,0),*b=PTR(const CO,1); out[0]=fcl::distance(geo(a),a->t,geo(b),b->t,PTR(const SL,6),RQ(DR),RS(DRes)); }
#endif

// ------------------------------------------------------------------ CHK=3: dispatch through the routine tables; continuous queries
#if CHK==3
extern "C" { const void* evp_table(int); double evp_motion(const double*); double evp_out(double,int); size_t evw_collide(const void*,const double*,const void*,const double*,const void*,const void*); }
struct NS { typedef double S; int x; };
namespace fcl {
template<> CollisionFunctionMatrix<NS>& getCollisionFunctionLookTable<NS>() { return *(CollisionFunctionMatrix<NS>*)evp_table(0); }
template<> DistanceFunctionMatrix<NS>& getDistanceFunctionLookTable<NS>() { return *(DistanceFunctionMatrix<NS>*)evp_table(1); }
template<> ConservativeAdvancementFunctionMatrix<NS>& getConservativeAdvancementFunctionLookTable<NS>() { return *(ConservativeAdvancementFunctionMatrix<NS>*)evp_table(2); }
}
//! n+drop std::(basic_)?ostream
#define RQ(T) (*PTR(const T,4))
#define RS(T) (*PTR(T,5))
#define T0 (*PTR(const T3,2))
#define T1 (*PTR(const T3,3))
#define NSV PTR(const NS,6)
template<OBJECT_TYPE O,NODE_TYPE N> struct DG : CG { DG(){} OBJECT_TYPE getObjectType() const override { return O; } NODE_TYPE getNodeType() const override { return N; } void computeLocalAABB() override {} };
typedef DG<OT_GEOM,GEOM_CAPSULE> G; typedef DG<OT_BVH,BV_RSS> B; typedef DG<OT_OCTREE,GEOM_OCTREE> O;
template<class X,class Y> static inline void icol(const double*in,double*out){ X a; Y b; a.user_data=PTR(void,0); b.user_data=PTR(void,1); CR q; q.num_max_contacts=*(const size_t*)(in+7); out[0]=(long)fcl::collide((const CG*)&a,T0,(const CG*)&b,T1,NSV,q,RS(CRes)); }
template<class X,class Y> static inline void scol(const double*in,double*out,bool sw){ X a; Y b; a.user_data=PTR(void,0); b.user_data=PTR(void,1); CR q; q.num_max_contacts=*(const size_t*)(in+7); const CollisionFunctionMatrix<NS>&m=*(const CollisionFunctionMatrix<NS>*)evp_table(0); NODE_TYPE n1=a.getNodeType(),n2=b.getNodeType(); const NS*s=NSV;
  auto f=sw?m.collision_matrix[n2][n1]:m.collision_matrix[n1][n2]; if(q.num_max_contacts==0||!f) { out[0]=0; return; } out[0]=(long)(sw?f(&b,T1,&a,T0,s,q,RS(CRes)):f(&a,T0,&b,T1,s,q,RS(CRes))); }
template<class X,class Y> static inline void idis(const double*in,double*out){ X a; Y b; a.user_data=PTR(void,0); b.user_data=PTR(void,1); DR q; out[0]=fcl::distance((const CG*)&a,T0,(const CG*)&b,T1,NSV,q,RS(DRes)); }
template<class X,class Y> static inline void sdis(const double*in,double*out,bool sw){ X a; Y b; a.user_data=PTR(void,0); b.user_data=PTR(void,1); DR q; const DistanceFunctionMatrix<NS>&m=*(const DistanceFunctionMatrix<NS>*)evp_table(1); NODE_TYPE n1=a.getNodeType(),n2=b.getNodeType(); const NS*s=NSV;
  auto f=sw?m.distance_matrix[n2][n1]:m.distance_matrix[n1][n2]; if(!f) { out[0]=1.7976931348623157e308; return; } out[0]=sw?f(&b,T1,&a,T0,s,q,RS(DRes)):f(&a,T0,&b,T1,s,q,RS(DRes)); }
#define DISP(NM,X,Y,SW) PROBE impl_c_##NM(const double*in,double*out){ icol<X,Y>(in,out); } PROBE spec_c_##NM(const double*in,double*out){ scol<X,Y>(in,out,SW); } PROBE impl_d_##NM(const double*in,double*out){ idis<X,Y>(in,out); } PROBE spec_d_##NM(const double*in,double*out){ sdis<X,Y>(in,out,SW); }
//@ c_gg what="collide dispatch: shape, shape" nonnull="0,1,4,5,6" if=CHK:3
//@ c_gb what="collide dispatch: shape, mesh" nonnull="0,1,4,5,6" if=CHK:3
//@ c_bg what="collide dispatch: mesh, shape" nonnull="0,1,4,5,6" if=CHK:3
//@ c_bb what="collide dispatch: mesh, mesh" nonnull="0,1,4,5,6" if=CHK:3
//@ c_go what="collide dispatch: shape, octree" nonnull="0,1,4,5,6" if=CHK:3
//@ c_og what="collide dispatch: octree, shape" nonnull="0,1,4,5,6" if=CHK:3
//@ c_bo what="collide dispatch: mesh, octree" nonnull="0,1,4,5,6" if=CHK:3
//@ c_ob what="collide dispatch: octree, mesh" nonnull="0,1,4,5,6" if=CHK:3
//@ d_gg what="distance dispatch: shape, shape" nonnull="0,1,4,5,6" if=CHK:3
//@ d_gb what="distance dispatch: shape, mesh" nonnull="0,1,4,5,6" if=CHK:3
//@ d_bg what="distance dispatch: mesh, shape" nonnull="0,1,4,5,6" if=CHK:3
//@ d_bb what="distance dispatch: mesh, mesh" nonnull="0,1,4,5,6" if=CHK:3
//@ d_go what="distance dispatch: shape, octree" nonnull="0,1,4,5,6" if=CHK:3
//@ d_og what="distance dispatch: octree, shape" nonnull="0,1,4,5,6" if=CHK:3
//@ d_bo what="distance dispatch: mesh, octree" nonnull="0,1,4,5,6" if=CHK:3
//@ d_ob what="distance dispatch: octree, mesh" nonnull="0,1,4,5,6" if=CHK:3
DISP(gg,G,G,false) DISP(gb,G,B,true) DISP(bg,B,G,false) DISP(bb,B,B,false) DISP(go,G,O,false) DISP(og,O,G,false) DISP(bo,B,O,false) DISP(ob,O,B,false)

// continuous queries.  The motion built from two poses and the solver-level routines are opaque.
namespace fcl {
template<> MotionBasePtr<double> getMotionBase(const T3&a,const T3&b,CCDMotionType k){ double x[25]; pm(x,a.linear()); pv(x+9,a.translation()); pm(x+12,b.linear()); pv(x+21,b.translation()); x[24]=(int)k; double h=evp_motion(x); MB*m; __builtin_memcpy(&m,&h,8); return MotionBasePtr<double>(std::shared_ptr<void>(),m); }
}
extern "C" { double evw_naive(const void*,const void*,const void*,const void*,const void*,const void*); double evw_poly(const void*,const void*,const void*,const void*,const void*,const void*); }
namespace fcl {
template<> double continuousCollideNaive(const CG*a,const MB*m,const CG*b,const MB*n,const CCR&q,CCRes&r){ return evw_naive(a,m,b,n,&q,&r); }
template<> double continuousCollideBVHPolynomial(const CG*a,const TranslationMotion<double>*m,const CG*b,const TranslationMotion<double>*n,const CCR&q,CCRes&r){ return evw_poly(a,m,b,n,&q,&r); }
}
//! w+drop detail::continuousCollideConservativeAdvancement<fcl::detail::GJKSolver_ if=CHK:3
static inline double rcc(const CG*a,const MB*m,const CG*b,const MB*n,const CCR&q,CCRes&r){
  switch(q.ccd_solver_type) { case CCDC_NAIVE: return continuousCollideNaive(a,m,b,n,q,r);
  case CCDC_CONSERVATIVE_ADVANCEMENT: if(q.gjk_solver_type==GST_LIBCCD) { SL s; return detail::continuousCollideConservativeAdvancement(a,m,b,n,(const SL*)&s,q,r); } if(q.gjk_solver_type==GST_INDEP) { SI s; return detail::continuousCollideConservativeAdvancement(a,m,b,n,(const SI*)&s,q,r); } return -1;
  case CCDC_POLYNOMIAL_SOLVER: if(a->getObjectType()==OT_BVH && b->getObjectType()==OT_BVH && q.ccd_motion_type==CCDM_TRANS) return continuousCollideBVHPolynomial(a,(const TranslationMotion<double>*)m,b,(const TranslationMotion<double>*)n,q,r); return -1; default: return -1; } }
#define CQ (*PTR(const CCR,4))
#define CZ (*PTR(CCRes,5))
template<class X,class Y> static inline void icc(const double*in,double*out){ X a; Y b; a.user_data=PTR(void,0); b.user_data=PTR(void,1); out[0]=fcl::continuousCollide((const CG*)&a,PTR(const MB,2),(const CG*)&b,PTR(const MB,3),CQ,CZ); }
template<class X,class Y> static inline void scc(const double*in,double*out){ X a; Y b; a.user_data=PTR(void,0); b.user_data=PTR(void,1); out[0]=rcc(&a,PTR(const MB,2),&b,PTR(const MB,3),CQ,CZ); }
//@ cc_gg what="continuousCollide(shape, motion, shape, motion)" nonnull="0,1,2,3,4,5" if=CHK:3
//@ cc_bb what="continuousCollide(mesh, motion, mesh, motion)" nonnull="0,1,2,3,4,5" if=CHK:3
//@ cc_bg what="continuousCollide(mesh, motion, shape, motion)" nonnull="0,1,2,3,4,5" if=CHK:3
//@ cc_gb what="continuousCollide(shape, motion, mesh, motion)" nonnull="0,1,2,3,4,5" if=CHK:3
#define CCD(NM,X,Y) PROBE impl_cc_##NM(const double*in,double*out){ icc<X,Y>(in,out); } PROBE spec_cc_##NM(const double*in,double*out){ scc<X,Y>(in,out); }
CCD(gg,G,G) CCD(bb,B,B) CCD(bg,B,G) CCD(gb,G,B)
template<class X,class Y> static inline void setup(const double*in,X&a,Y&b){ a.user_data=PTR(void,0); b.user_data=PTR(void,1); }
// object-level and pose-level continuous queries are the motion-level query for the motions between the poses
//@ cc_pose what="continuousCollide(geometry, begin, end, ...)" nonnull="0,1,2,3,4,5,6,7" if=CHK:3
#define P1B (*PTR(const T3,2))
#define P1E (*PTR(const T3,3))
#define P2B (*PTR(const T3,6))
#define P2E (*PTR(const T3,7))
PROBE impl_cc_pose(const double*in,double*out){ G a,b; setup(in,a,b); out[0]=fcl::continuousCollide((const CG*)&a,P1B,P1E,(const CG*)&b,P2B,P2E,CQ,CZ); }
PROBE spec_cc_pose(const double*in,double*out){ G a,b; setup(in,a,b); out[0]=rcc(&a,getMotionBase(P1B,P1E,CQ.ccd_motion_type).get(),&b,getMotionBase(P2B,P2E,CQ.ccd_motion_type).get(),CQ,CZ); }
// a collision object (not constructed by its constructor) owning geometry g at pose t
template<class X> struct OB { alignas(CO) char m[sizeof(CO)]; X g; OB(void*u,const T3&t){ g.user_data=u; CO*o=(CO*)m; new((void*)&o->cgeom) std::shared_ptr<CG>(std::shared_ptr<void>(),(CG*)&g); new((void*)&o->cgeom_const) std::shared_ptr<const CG>(std::shared_ptr<void>(),(const CG*)&g); o->t=t; } CO*get(){ return (CO*)m; } };
//@ cc_obj what="continuousCollide(object, end, object, end)" nonnull="0,1,2,3,4,5,6,7" if=CHK:3
PROBE impl_cc_obj(const double*in,double*out){ OB<G> a(PTR(void,0),P1B),b(PTR(void,1),P2B); out[0]=fcl::continuousCollide((const CO*)a.get(),P1E,(const CO*)b.get(),P2E,CQ,CZ); }
PROBE spec_cc_obj(const double*in,double*out){ G a,b; setup(in,a,b); out[0]=rcc(&a,getMotionBase(P1B,P1E,CQ.ccd_motion_type).get(),&b,getMotionBase(P2B,P2E,CQ.ccd_motion_type).get(),CQ,CZ); }
template<class X> struct CB { alignas(CCO) char m[sizeof(CCO)]; X g; CB(void*u,MB*mo){ g.user_data=u; CCO*o=(CCO*)m; new((void*)&o->cgeom) std::shared_ptr<CG>(std::shared_ptr<void>(),(CG*)&g); new((void*)&o->cgeom_const) std::shared_ptr<const CG>(std::shared_ptr<void>(),(const CG*)&g); new((void*)&o->motion) std::shared_ptr<MB>(std::shared_ptr<void>(),mo); } const CCO*get(){ return (const CCO*)m; } };
//@ cc_cobj what="collide(moving object, moving object)" nonnull="0,1,2,3,4,5" if=CHK:3
PROBE impl_cc_cobj(const double*in,double*out){ CB<G> a(PTR(void,0),PTR(MB,2)),b(PTR(void,1),PTR(MB,3)); out[0]=fcl::collide(a.get(),b.get(),CQ,CZ); }
PROBE spec_cc_cobj(const double*in,double*out){ G a,b; setup(in,a,b); out[0]=rcc(&a,PTR(const MB,2),&b,PTR(const MB,3),CQ,CZ); }
#endif

// ------------------------------------------------------------------ CHK=4: sampled continuous query, conservative-advancement dispatch, motions
#if CHK==4
extern "C" { const void* evp_table(int); double evp_out(double,int); double evp_pose(const double*); void evw_integrate(const void*,double); bool evw_collide(const double*,const void*,const double*,const void*,const void*); double evw_poly(const void*,const void*,const void*,const void*,const void*,const void*,int); }
struct NS { typedef double S; int x; };
namespace fcl {
template<> ConservativeAdvancementFunctionMatrix<NS>& getConservativeAdvancementFunctionLookTable<NS>() { return *(ConservativeAdvancementFunctionMatrix<NS>*)evp_table(2); }
}
template<OBJECT_TYPE O,NODE_TYPE N> struct DG : CG { DG(){} OBJECT_TYPE getObjectType() const override { return O; } NODE_TYPE getNodeType() const override { return N; } void computeLocalAABB() override {} };
typedef DG<OT_GEOM,GEOM_CAPSULE> G; typedef DG<OT_BVH,BV_RSS> B; typedef DG<OT_OCTREE,GEOM_OCTREE> O;
//! n+drop ^std::__shared_count< if=CHK:4
//! n+drop ^std::_Sp_counted if=CHK:4
//! n+drop ^std::_Rb_tree<fcl::CostSource if=CHK:4
//! n+drop MotionBase<double>::(~)?MotionBase\( if=CHK:4
// a motion whose pose is an opaque function of the motion and the time
struct MM : MB { double id; mutable double t; MM(double i):id(i),t(0){} bool integrate(double x) const override { t=x; return true; } double computeMotionBound(const BVMotionBoundVisitor<double>&) const override { return 0; } double computeMotionBound(const TriangleMotionBoundVisitor<double>&) const override { return 0; }
  void getCurrentTransform(T3&tf) const override { double x[2]={id,t}; double h=evp_pose(x); double q[12]; for(int i=0;i<12;++i) q[i]=evp_out(h,i); tf=gt(q); } void getTaylorModel(TMatrix3<double>&,TVector3<double>&) const override {} };
static inline T3 pose(double id,double t){ double x[2]={id,t}; double h=evp_pose(x); double q[12]; for(int i=0;i<12;++i) q[i]=evp_out(h,i); return gt(q); }
static inline void po(double*o,const T3&t){ pm(o,t.linear()); pv(o+9,t.translation()); }
static inline void outr(double*out,const CCRes&r){ out[1]=r.is_collide; out[2]=r.time_of_contact; if(r.is_collide){ po(out+3,r.contact_tf1); po(out+15,r.contact_tf2); } else for(int i=3;i<27;++i) out[i]=0; }
//! w+drop ^unsigned\slong\sfcl::collide<double>\(fcl::CollisionGeometry if=CHK:4
// sampled query: the poses are tested at equidistant times 0 .. 1 (count: iteration limit, but no more than the time resolution asks for), the first hit is reported
template<int N> static inline void inaive(const double*in,double*out,double err){ MM m(in[2]),n(in[3]); CCR q; q.num_max_iterations=N; q.toc_err=err; CCRes r; out[0]=continuousCollideNaive(PTR(const CG,0),(const MB*)&m,PTR(const CG,1),(const MB*)&n,q,r); outr(out,r); }
template<int N> static inline void snaive(const double*in,double*out){ CCRes r; CR cq; r.is_collide=false; r.time_of_contact=1; for(int i=0;i<N;++i) { double t=i/(double)(N-1); T3 a=pose(in[2],t),b=pose(in[3],t); CRes cr; if(fcl::collide(PTR(const CG,0),a,PTR(const CG,1),b,cq,cr)) { r.is_collide=true; r.time_of_contact=t; r.contact_tf1=a; r.contact_tf2=b; break; } } out[0]=r.time_of_contact; outr(out,r); }
//@ naive what="continuousCollideNaive, 3 samples by iteration limit" nonnull="0,1" if=CHK:4
PROBE impl_naive(const double*in,double*out){ inaive<3>(in,out,0.0001); }
PROBE spec_naive(const double*in,double*out){ snaive<3>(in,out); }
//@ naive2 what="continuousCollideNaive, 4 samples by time resolution" nonnull="0,1" if=CHK:4
PROBE impl_naive2(const double*in,double*out){ inaive<20>(in,out,0.25); }
PROBE spec_naive2(const double*in,double*out){ snaive<4>(in,out); }
// conservative advancement: table entry of the two types, in order; the reported poses are those at the time of contact
template<class X,class Y> static inline void ica(const double*in,double*out){ X a; Y b; a.user_data=PTR(void,0); b.user_data=PTR(void,1); MM m(in[2]),n(in[3]); CCRes r; r.is_collide=in[7]>0; r.time_of_contact=in[8]; r.contact_tf1=r.contact_tf2=T3::Identity(); out[0]=detail::continuousCollideConservativeAdvancement((const CG*)&a,(const MB*)&m,(const CG*)&b,(const MB*)&n,PTR(const NS,6),*PTR(const CCR,4),r); outr(out,r); }
template<class X,class Y> static inline void sca(const double*in,double*out){ X a; Y b; a.user_data=PTR(void,0); b.user_data=PTR(void,1); MM m(in[2]),n(in[3]); CCRes r; r.is_collide=in[7]>0; r.time_of_contact=in[8]; r.contact_tf1=r.contact_tf2=T3::Identity(); auto f=((const ConservativeAdvancementFunctionMatrix<NS>*)evp_table(2))->conservative_advancement_matrix[a.getNodeType()][b.getNodeType()]; out[0]=-1; if(f) out[0]=f(&a,&m,&b,&n,PTR(const NS,6),*PTR(const CCR,4),r); if(r.is_collide){ r.contact_tf1=pose(in[2],r.time_of_contact); r.contact_tf2=pose(in[3],r.time_of_contact); } outr(out,r); }
#define CA(NM,X,Y) PROBE impl_ca_##NM(const double*in,double*out){ ica<X,Y>(in,out); } PROBE spec_ca_##NM(const double*in,double*out){ sca<X,Y>(in,out); }
//@ ca_gg what="conservative advancement dispatch: shape, shape" nonnull="0,1,4,6" if=CHK:4
//@ ca_gb what="conservative advancement dispatch: shape, mesh" nonnull="0,1,4,6" if=CHK:4
//@ ca_bg what="conservative advancement dispatch: mesh, shape" nonnull="0,1,4,6" if=CHK:4
//@ ca_bb what="conservative advancement dispatch: mesh, mesh" nonnull="0,1,4,6" if=CHK:4
CA(gg,G,G) CA(gb,G,B) CA(bg,B,G) CA(bb,B,B)
// polynomial solver: one routine per bounding volume type, both meshes of that type
namespace fcl { namespace detail {
#define PB(BV,K) template<> double continuousCollideBVHPolynomial<BV>(const CG*a,const TranslationMotion<double>*m,const CG*b,const TranslationMotion<double>*n,const CCR&q,CCRes&r){ return evw_poly(a,m,b,n,&q,&r,K); }
PB(AABB<double>,BV_AABB) PB(OBB<double>,BV_OBB) PB(RSS<double>,BV_RSS) PB(kIOS<double>,BV_kIOS) PB(OBBRSS<double>,BV_OBBRSS)
typedef KDOP<double,16> K16; typedef KDOP<double,18> K18; typedef KDOP<double,24> K24; PB(K16,BV_KDOP16) PB(K18,BV_KDOP18) PB(K24,BV_KDOP24)
} }
template<NODE_TYPE M,NODE_TYPE N> static inline void ipoly(const double*in,double*out){ DG<OT_BVH,M> a; DG<OT_BVH,N> b; a.user_data=PTR(void,0); b.user_data=PTR(void,1); out[0]=continuousCollideBVHPolynomial((const CG*)&a,PTR(const TranslationMotion<double>,2),(const CG*)&b,PTR(const TranslationMotion<double>,3),*PTR(const CCR,4),*PTR(CCRes,5)); }
template<NODE_TYPE M,NODE_TYPE N> static inline void spoly(const double*in,double*out){ DG<OT_BVH,M> a; DG<OT_BVH,N> b; a.user_data=PTR(void,0); b.user_data=PTR(void,1); out[0]=M==N?evw_poly(&a,PTR(void,2),&b,PTR(void,3),PTR(void,4),PTR(void,5),M):-1; }
#define POLY(NM,M,N) PROBE impl_poly_##NM(const double*in,double*out){ ipoly<M,N>(in,out); } PROBE spec_poly_##NM(const double*in,double*out){ spoly<M,N>(in,out); }
//@ poly_aabb what="polynomial continuous query: AABB meshes" nonnull="0,1,2,3,4,5" if=CHK:4
//@ poly_obb what="polynomial continuous query: OBB meshes" nonnull="0,1,2,3,4,5" if=CHK:4
//@ poly_rss what="polynomial continuous query: RSS meshes" nonnull="0,1,2,3,4,5" if=CHK:4
//@ poly_kios what="polynomial continuous query: kIOS meshes" nonnull="0,1,2,3,4,5" if=CHK:4
//@ poly_obbrss what="polynomial continuous query: OBBRSS meshes" nonnull="0,1,2,3,4,5" if=CHK:4
//@ poly_k16 what="polynomial continuous query: 16-DOP meshes" nonnull="0,1,2,3,4,5" if=CHK:4
//@ poly_k18 what="polynomial continuous query: 18-DOP meshes" nonnull="0,1,2,3,4,5" if=CHK:4
//@ poly_k24 what="polynomial continuous query: 24-DOP meshes" nonnull="0,1,2,3,4,5" if=CHK:4
//@ poly_mix what="polynomial continuous query: AABB mesh, OBB mesh" nonnull="0,1,2,3,4,5" events=none if=CHK:4
//@ poly_mix2 what="polynomial continuous query: 18-DOP mesh, 16-DOP mesh" nonnull="0,1,2,3,4,5" events=none if=CHK:4
POLY(aabb,BV_AABB,BV_AABB) POLY(obb,BV_OBB,BV_OBB) POLY(rss,BV_RSS,BV_RSS) POLY(kios,BV_kIOS,BV_kIOS) POLY(obbrss,BV_OBBRSS,BV_OBBRSS) POLY(k16,BV_KDOP16,BV_KDOP16) POLY(k18,BV_KDOP18,BV_KDOP18) POLY(k24,BV_KDOP24,BV_KDOP24) POLY(mix,BV_AABB,BV_OBB) POLY(mix2,BV_KDOP18,BV_KDOP16)
// the motion built for two poses is of the requested class
//! w+drop ^fcl::(Translation|Interp|Screw|Spline)Motion<double>::(Translation|Interp|Screw|Spline)Motion skip=1 if=CHK:4
//@ motion what="getMotionBase" nonnull="0,1" if=CHK:4
PROBE impl_motion(const double*in,double*out){ MotionBasePtr<double> p=getMotionBase(*PTR(const T3,0),*PTR(const T3,1),(CCDMotionType)*(const int*)(in+2)); out[0]=p.get()!=nullptr; }
PROBE spec_motion(const double*in,double*out){ const T3&a=*PTR(const T3,0),&b=*PTR(const T3,1); int k=*(const int*)(in+2); out[0]=1; if(k==CCDM_TRANS) new TranslationMotion<double>(a,b); else if(k==CCDM_LINEAR) new InterpMotion<double>(a,b); else if(k==CCDM_SCREW) new ScrewMotion<double>(a,b); else if(k==CCDM_SPLINE) new SplineMotion<double>(a,b); else out[0]=0; }
#endif

// ------------------------------------------------------------------ CHK=5: collision objects
#if CHK==5
extern "C" { double evp_out(double,int); void evw_local(const void*); double evp_q2m(const double*); double evp_m2q(const double*); }
//! n+pure ^std::__shared_count< if=CHK:5
//! n+pure ^std::_Sp_counted if=CHK:5
struct DG : CG { DG(){} OBJECT_TYPE getObjectType() const override { return OT_GEOM; } NODE_TYPE getNodeType() const override { return GEOM_CONE; } void computeLocalAABB() override { double h=evp_out(cost_density,100); aabb_local.min_=V3(evp_out(h,0),evp_out(h,1),evp_out(h,2)); aabb_local.max_=V3(evp_out(h,3),evp_out(h,4),evp_out(h,5)); aabb_center=V3(evp_out(h,6),evp_out(h,7),evp_out(h,8)); aabb_radius=evp_out(h,9); } };
struct OB { alignas(CO) char m[sizeof(CO)]; CO&o; OB(CG*g,const double*p,const double*b):o(*(CO*)m){ new((void*)&o.cgeom) std::shared_ptr<CG>(std::shared_ptr<void>(),g); new((void*)&o.cgeom_const) std::shared_ptr<const CG>(std::shared_ptr<void>(),g); o.t=gt(p); o.aabb.min_=gv(b); o.aabb.max_=gv(b+3); } };
static inline void po(double*o,const T3&t){ pm(o,t.linear()); pv(o+9,t.translation()); }
static inline void fill(CG&g,const double*p){ g.aabb_local.min_=gv(p); g.aabb_local.max_=gv(p+3); g.aabb_center=gv(p+6); g.aabb_radius=p[9]; }
static inline void wbox(const CG&g,const T3&t,V3&lo,V3&hi){ if(t.linear().isIdentity()) { for(int i=0;i<3;++i){ lo[i]=g.aabb_local.min_[i]+t.translation()[i]; hi[i]=g.aabb_local.max_[i]+t.translation()[i]; } } else { double T[12],c[3]; po(T,t); double x[3]={g.aabb_center[0],g.aabb_center[1],g.aabb_center[2]}; app(T,x,c); for(int i=0;i<3;++i){ lo[i]=c[i]-g.aabb_radius; hi[i]=c[i]+g.aabb_radius; } } }
// 0..11 pose, 12..17 world box, 18..27 local box, centre, radius, 30..41 argument
//@ box what="computeAABB: world box of a posed object" if=CHK:5
PROBE impl_box(const double*in,double*out){ DG g; fill(g,in+18); OB b(&g,in,in+12); b.o.computeAABB(); pv(out,b.o.getAABB().min_); pv(out+3,b.o.getAABB().max_); po(out+6,b.o.getTransform()); }
PROBE spec_box(const double*in,double*out){ DG g; fill(g,in+18); V3 lo,hi; T3 t=gt(in); wbox(g,t,lo,hi); pv(out,lo); pv(out+3,hi); po(out+6,t); }
// setters: the pose is what was set, nothing else changes
#define SET(NM,CALL,REF) PROBE impl_##NM(const double*in,double*out){ DG g; fill(g,in+18); OB b(&g,in,in+12); CALL; po(out,b.o.getTransform()); pv(out+12,b.o.getTranslation()); pm(out+15,b.o.getRotation()); pv(out+24,b.o.getAABB().min_); pv(out+27,b.o.getAABB().max_); } \
 PROBE spec_##NM(const double*in,double*out){ T3 t=gt(in); const double*a=in+30; REF; po(out,t); pv(out+12,t.translation()); pm(out+15,t.linear()); pv(out+24,gv(in+12)); pv(out+27,gv(in+15)); }
static inline void q2m(const double*q,double*R){ double w=q[0],x=q[1],y=q[2],z=q[3]; double r[9]={1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y),2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x),2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y)}; for(int i=0;i<9;++i) R[i]=r[i]; }
#define Q Eigen::Quaternion<double>(in[30],in[31],in[32],in[33])
//@ setR what="setRotation" if=CHK:5
SET(setR,b.o.setRotation(gm(in+30)),t.linear()=gm(a))
//@ setT what="setTranslation" if=CHK:5
SET(setT,b.o.setTranslation(gv(in+30)),t.translation()=gv(a))
//@ setQ what="setQuatRotation" if=CHK:5
SET(setQ,b.o.setQuatRotation(Q),double R[9];q2m(a,R);t.linear()=gm(R))
//@ setRT what="setTransform(rotation, translation)" if=CHK:5
SET(setRT,b.o.setTransform(gm(in+30),gv(in+39)),t.linear()=gm(a);t.translation()=gv(a+9))
//@ setQT what="setTransform(quaternion, translation)" if=CHK:5
SET(setQT,b.o.setTransform(Q,gv(in+39)),double R[9];q2m(a,R);t.linear()=gm(R);t.translation()=gv(a+9))
//@ setTf what="setTransform(pose)" if=CHK:5
SET(setTf,b.o.setTransform(gt(in+30)),t=gt(a))
//@ setI what="setIdentityTransform" if=CHK:5
SET(setI,b.o.setIdentityTransform(),t.setIdentity())
//@ quat what="getQuatRotation" if=CHK:5
PROBE impl_quat(const double*in,double*out){ DG g; OB b(&g,in,in+12); Eigen::Quaternion<double> q=b.o.getQuatRotation(); out[0]=q.w(); out[1]=q.x(); out[2]=q.y(); out[3]=q.z(); }
PROBE spec_quat(const double*in,double*out){ M3 m=gm(in); Eigen::Quaternion<double> q(m); out[0]=q.w(); out[1]=q.x(); out[2]=q.y(); out[3]=q.z(); }
// constructors: pose as given, local box computed first, then the world box
#define CTOR(NM,MK,P) PROBE impl_##NM(const double*in,double*out){ DG g; g.cost_density=in[20]; std::shared_ptr<CG> p(std::shared_ptr<void>(),&g); MK; po(out,o.getTransform()); pv(out+12,o.getAABB().min_); pv(out+15,o.getAABB().max_); out[18]=o.collisionGeometry().get()==&g; } \
 PROBE spec_##NM(const double*in,double*out){ DG g; g.cost_density=in[20]; g.computeLocalAABB(); T3 t=P; V3 lo,hi; wbox(g,t,lo,hi); po(out,t); pv(out+12,lo); pv(out+15,hi); out[18]=1; }
//@ newI what="CollisionObject(geometry)" if=CHK:5
CTOR(newI,CO o(p),T3::Identity())
//@ newT what="CollisionObject(geometry, pose)" if=CHK:5
CTOR(newT,CO o(p,gt(in)),gt(in))
//@ newR what="CollisionObject(geometry, rotation, translation)" if=CHK:5
CTOR(newR,CO o(p,gm(in),gv(in+9)),gt(in))
// moving objects: the box is the hull of the boxes of the eight corners over the motion
extern "C" { double evp_tight(double,const double*); }
namespace fcl {
template<> TaylorModel<double>::TaylorModel(){} template<> TVector3<double>::TVector3(){} template<> TMatrix3<double>::TMatrix3(){}
template<> TVector3<double> TMatrix3<double>::operator*(const V3&p) const { TVector3<double> r; for(int i=0;i<3;++i) r.i_[i].coeffs_[0]=p[i]; r.i_[0].coeffs_[1]=v_[0].i_[0].coeffs_[0]; return r; }
template<> TVector3<double> TVector3<double>::operator+(const TVector3<double>&o) const { TVector3<double> r; for(int i=0;i<3;++i) r.i_[i].coeffs_[0]=i_[i].coeffs_[0]; r.i_[0].coeffs_[1]=i_[0].coeffs_[1]; r.i_[0].coeffs_[2]=o.i_[0].coeffs_[0]; return r; }
template<> IVector3<double> TVector3<double>::getTightBound() const { double x[5]; for(int i=0;i<3;++i) x[i]=i_[i].coeffs_[0]; x[3]=i_[0].coeffs_[1]; x[4]=i_[0].coeffs_[2]; double h=evp_tight(0,x); IVector3<double> r; for(int i=0;i<3;++i){ r.i_[i].i_[0]=evp_out(h,i); r.i_[i].i_[1]=evp_out(h,3+i); } return r; }
}
//! n+pure MotionBase<double>::(~)?MotionBase\( if=CHK:5
struct MM : MB { double id; MM(double i):id(i){} bool integrate(double) const override { return true; } double computeMotionBound(const BVMotionBoundVisitor<double>&) const override { return 0; } double computeMotionBound(const TriangleMotionBoundVisitor<double>&) const override { return 0; } void getCurrentTransform(T3&) const override {} void getTaylorModel(TMatrix3<double>&R,TVector3<double>&t) const override { R.v_[0].i_[0].coeffs_[0]=id; t.i_[0].coeffs_[0]=id+1; } };
//@ mbox what="moving object: computeAABB covers the motion of all eight corners" if=CHK:5
PROBE impl_mbox(const double*in,double*out){ DG g; fill(g,in+18); MM m(in[40]); alignas(CCO) char b[sizeof(CCO)]; CCO&o=*(CCO*)b; new((void*)&o.cgeom) std::shared_ptr<CG>(std::shared_ptr<void>(),&g); new((void*)&o.motion) std::shared_ptr<MB>(std::shared_ptr<void>(),&m); o.computeAABB(); pv(out,o.getAABB().min_); pv(out+3,o.getAABB().max_); }
PROBE spec_mbox(const double*in,double*out){ V3 lo,hi; for(int c=0;c<8;++c) { double x[5]={in[c&4?21:18],in[c&2?22:19],in[c&1?23:20],in[40],in[40]+1}; double h=evp_tight(0,x); for(int i=0;i<3;++i){ double a=evp_out(h,i),b=evp_out(h,3+i); if(!c||a<lo[i]) lo[i]=a; if(!c||b>hi[i]) hi[i]=b; } } pv(out,lo); pv(out+3,hi); }
#endif
