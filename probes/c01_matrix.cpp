// C01: the routine tables.  Never executed; analysed as IR.  Each entry of the tables built by the library is
// called on opaque geometries; setting up and running a traversal are events whose names carry the types.
#include "probe.h"
#define FCL_COLLISION_NODE_INL_H
#define FCL_TRAVERSAL_BVHCOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_BVHDISTANCETRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_BVHSHAPECOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_BVHSHAPEDISTANCETRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_COLLISIONTRAVERSALNODEBASE_INL_H
#define FCL_TRAVERSAL_CONVERVATIVEADVANCEMENTSTACKDATA_INL_H
#define FCL_TRAVERSAL_DISTANCERAVERSALNODEBASE_INL_H
#define FCL_TRAVERSAL_MESHCOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_MESHCONSERVATIVEADVANCEMENTTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_MESHCONTINUOUSCOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_MESHDISTANCETRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_MESHSHAPECOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_MESHSHAPECONSERVATIVEADVANCEMENTTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_MESHSHAPEDISTANCETRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_OCTREE_MESHOCTREECOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_OCTREE_MESHOCTREEDISTANCETRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_OCTREE_OCTREECOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_OCTREE_OCTREEDISTANCETRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_OCTREE_OCTREEMESHCOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_OCTREE_OCTREEMESHDISTANCETRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_OCTREE_OCTREESHAPECOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_OCTREE_OCTREESHAPEDISTANCETRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_OCTREE_OCTREESOLVER_INL_H
#define FCL_TRAVERSAL_OCTREE_SHAPEOCTREECOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_OCTREE_SHAPEOCTREEDISTANCETRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_RECURSE_INL_H
#define FCL_TRAVERSAL_SHAPEBVHCOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_SHAPEBVHDISTANCETRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_SHAPECOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_SHAPECONSERVATIVEADVANCEMENTTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_SHAPEDISTANCETRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_SHAPEMESHCOLLISIONTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_SHAPEMESHCONSERVATIVEADVANCEMENTTRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_SHAPEMESHDISTANCETRAVERSALNODE_INL_H
#define FCL_TRAVERSAL_TRAVERSALNODEBASE_INL_H
#define FCL_COLLISIONRESULT_INL_H
#define FCL_COLLISION_INL_H
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/detail/collision_func_matrix.h"
#include "fcl/narrowphase/detail/distance_func_matrix.h"
#include "fcl/narrowphase/detail/conservative_advancement_func_matrix.h"
namespace fcl { template<> CollisionResult<double>::CollisionResult() {} }
using namespace fcl; using namespace fcl::detail;
extern "C" double evr_guess(const void*,int);
struct NS { typedef double S; void enableCachedGuess(bool) const; void setCachedGuess(const V3&) const; V3 getCachedGuess() const { return V3(evr_guess(this,0),evr_guess(this,1),evr_guess(this,2)); } };
typedef CollisionGeometry<double> CG; typedef CollisionRequest<double> CR; typedef CollisionResult<double> CRes; typedef DistanceRequest<double> DR; typedef DistanceResult<double> DRes;
#define PTR(T,k) ((T*)*(void**)(in+k))

//! n TraversalNode\w*<.*>::~?\w+TraversalNode\w*\(
//! n TraversalNodeBase<double>::~?\w+\(
//! w ^(bool\s)?fcl::detail::initialize< skip=0
//! w ^(bool\s)?fcl::detail::initialize<.*DistanceResult name=setup_distance
//! w ^void\sfcl::detail::(collide|distance)<double>\( skip=0
//! w ^fcl::detail::OcTreeSolver<NS>::OcTreeSolver\( out=0
//! w+drop ^fcl::BVHModel<.*>::BVHModel\(fcl::BVHModel<.*>\sconst&\) outp=0
//! w+drop constructBox
//! w ^NS::(enable|set)CachedGuess
//! r ^fcl::CollisionResult<double>::(numContacts|isCollision)
//! w+drop detail::conservativeAdvancement< out=-1
//! n+drop std::_Rb_tree<.*>::_M_erase\(
typedef CollisionGeometry<double> CG; typedef MotionBase<double> MB;
#define A1 PTR(const CG,0),*PTR(const T3,2),PTR(const CG,1),*PTR(const T3,3),PTR(const NS,4)
#define RQ (*PTR(const CR,5))
#define RS (*PTR(CRes,6))
#define DQ (*PTR(const DR,5))
#define DS (*PTR(DRes,6))
#define O1 PTR(const CG,0)
#define O2 PTR(const CG,1)
#define X1 (*PTR(const T3,2))
#define X2 (*PTR(const T3,3))
#define SV PTR(const NS,4)
#if CHK==1 || CHK==2
static inline void icol(int i,int j,const double*in,double*out){ CollisionFunctionMatrix<NS> m; auto f=m.collision_matrix[i][j]; if(!f) { out[0]=-1; return; } out[0]=(long)f(A1,RQ,RS); }

// reference procedures
template<class A,class B> static inline void c_ss(const double*in,double*out,const CG*o1,const T3&x1,const CG*o2,const T3&x2,const CR&q){ if(!q.isSatisfied(RS)) { ShapeCollisionTraversalNode<A,B,NS> n; SV->enableCachedGuess(q.enable_cached_gjk_guess); if(q.enable_cached_gjk_guess) SV->setCachedGuess(q.cached_gjk_guess); initialize(n,(const A&)*o1,x1,(const B&)*o2,x2,SV,q,RS); collide<double>(&n,nullptr); if(q.enable_cached_gjk_guess) RS.cached_gjk_guess=SV->getCachedGuess(); } out[0]=(long)RS.numContacts(); }
template<class V> struct ONode { template<class B> using T=MeshShapeCollisionTraversalNode<V,B,NS>; enum{o=0}; };
template<> struct ONode<OBB<double>> { template<class B> using T=MeshShapeCollisionTraversalNodeOBB<B,NS>; enum{o=1}; };
template<> struct ONode<RSS<double>> { template<class B> using T=MeshShapeCollisionTraversalNodeRSS<B,NS>; enum{o=1}; };
template<> struct ONode<kIOS<double>> { template<class B> using T=MeshShapeCollisionTraversalNodekIOS<B,NS>; enum{o=1}; };
template<> struct ONode<OBBRSS<double>> { template<class B> using T=MeshShapeCollisionTraversalNodeOBBRSS<B,NS>; enum{o=1}; };
template<bool O> struct Do { template<class V,class N,class B> static inline void go(const double*in,N&n,const V&a,const T3&x1,const B&b,const CR&q) { initialize(n,a,x1,b,X2,SV,q,RS); collide<double>(&n,nullptr); } template<class V,class N> static inline void go2(const double*in,N&n,const V&a,const V&b) { initialize(n,a,X1,b,X2,RQ,RS); collide<double>(&n,nullptr); } };
template<> struct Do<false> { template<class V,class N,class B> static inline void go(const double*in,N&n,const V&a,const T3&x1,const B&b,const CR&q) { V*t=new V(a); T3 y=x1; initialize(n,*t,y,b,X2,SV,q,RS); collide<double>(&n,nullptr); delete t; } template<class V,class N> static inline void go2(const double*in,N&n,const V&a,const V&b) { V*t=new V(a); T3 y=X1; V*u=new V(b); T3 z=X2; initialize(n,*t,y,*u,z,RQ,RS); collide<double>(&n,nullptr); delete t; delete u; } };
template<class V,class W> static inline void root(const V&m,const T3&x,Box<double>&b,T3&y,const W*){ constructBox(m.getBV(0).bv,x,b,y); b.cost_density=m.cost_density; b.threshold_occupied=m.threshold_occupied; b.threshold_free=m.threshold_free; }
template<class V,class B> static inline void c_vs(const double*in,double*out){ typedef BVHModel<V> M; if(!RQ.isSatisfied(RS)) { const M&m=(const M&)*O1; typename ONode<V>::template T<B> n; if(RQ.enable_cost&&RQ.use_approximate_cost) { CR q(RQ); q.enable_cost=false; Do<ONode<V>::o>::template go<M>(in,n,m,X1,(const B&)*O2,q); Box<double> b; T3 y; root(m,X1,b,y,(int*)0); CR c(RS.numContacts(),false,RQ.num_max_cost_sources,true,false); double t[1]; c_ss<Box<double>,B>(in,t,&b,y,O2,X2,c); } else Do<ONode<V>::o>::template go<M>(in,n,m,X1,(const B&)*O2,RQ); } out[0]=(long)RS.numContacts(); }
template<class V> struct MNode { typedef MeshCollisionTraversalNode<V> T; enum{o=0}; };
template<> struct MNode<OBB<double>> { typedef MeshCollisionTraversalNodeOBB<double> T; enum{o=1}; };
template<> struct MNode<kIOS<double>> { typedef MeshCollisionTraversalNodekIOS<double> T; enum{o=1}; };
template<> struct MNode<OBBRSS<double>> { typedef MeshCollisionTraversalNodeOBBRSS<double> T; enum{o=1}; };
template<class V> static inline void c_vv(const double*in,double*out){ typedef BVHModel<V> M; if(!RQ.isSatisfied(RS)) { typename MNode<V>::T n; Do<MNode<V>::o>::template go2<M>(in,n,(const M&)*O1,(const M&)*O2); } out[0]=(long)RS.numContacts(); }
typedef OcTree<double> OT; typedef OcTreeSolver<NS> OS;
template<class N,class A,class B> static inline void oct(const double*in,const A&a,const T3&x1,const B&b,const T3&x2,const CR&q){ N n; OS s(SV); initialize(n,a,x1,b,x2,&s,q,RS); collide<double>(&n,nullptr); }
template<class A> static inline void c_so(const double*in,double*out){ if(!RQ.isSatisfied(RS)) oct<ShapeOcTreeCollisionTraversalNode<A,NS>>(in,(const A&)*O1,X1,(const OT&)*O2,X2,RQ); out[0]=(long)RS.numContacts(); }
template<class A> static inline void c_os(const double*in,double*out){ if(!RQ.isSatisfied(RS)) oct<OcTreeShapeCollisionTraversalNode<A,NS>>(in,(const OT&)*O1,X1,(const A&)*O2,X2,RQ); out[0]=(long)RS.numContacts(); }
static inline void c_oo(const double*in,double*out){ if(!RQ.isSatisfied(RS)) oct<OcTreeCollisionTraversalNode<NS>>(in,(const OT&)*O1,X1,(const OT&)*O2,X2,RQ); out[0]=(long)RS.numContacts(); }
template<class V> static inline void c_ov(const double*in,double*out){ typedef BVHModel<V> M; const M&m=(const M&)*O2; if(!RQ.isSatisfied(RS)) { typedef OcTreeMeshCollisionTraversalNode<V,NS> N; if(RQ.enable_cost&&RQ.use_approximate_cost) { CR q(RQ); q.enable_cost=false; oct<N>(in,(const OT&)*O1,X1,m,X2,q); Box<double> b; T3 y; root(m,X2,b,y,(int*)0); CR c(RS.numContacts(),false,RQ.num_max_cost_sources,true,false); if(!c.isSatisfied(RS)) oct<OcTreeShapeCollisionTraversalNode<Box<double>,NS>>(in,(const OT&)*O1,X1,b,y,c); RS.numContacts(); } else oct<N>(in,(const OT&)*O1,X1,m,X2,RQ); } out[0]=(long)RS.numContacts(); }
template<class V> static inline void c_vo(const double*in,double*out){ typedef BVHModel<V> M; const M&m=(const M&)*O1; if(!RQ.isSatisfied(RS)) { typedef MeshOcTreeCollisionTraversalNode<V,NS> N; if(RQ.enable_cost&&RQ.use_approximate_cost) { CR q(RQ); q.enable_cost=false; oct<N>(in,m,X1,(const OT&)*O2,X2,q); Box<double> b; T3 y; root(m,X1,b,y,(int*)0); CR c(RS.numContacts(),false,RQ.num_max_cost_sources,true,false); if(!c.isSatisfied(RS)) oct<ShapeOcTreeCollisionTraversalNode<Box<double>,NS>>(in,b,y,(const OT&)*O2,X2,c); } else oct<N>(in,m,X1,(const OT&)*O2,X2,RQ); } out[0]=(long)RS.numContacts(); }
#endif
#if CHK==3
static inline void idis(int i,int j,const double*in,double*out){ DistanceFunctionMatrix<NS> m; auto f=m.distance_matrix[i][j]; if(!f) { out[0]=-1; return; } out[0]=f(A1,DQ,DS); }
template<class N,class A,class B> static inline void run(const double*in,A&a,const T3&x1,B&b,const T3&x2){ N n; initialize(n,a,x1,b,x2,SV,DQ,DS); distance<double>(&n,nullptr,2); }
template<class A,class B> static inline void d_ss(const double*in,double*out){ if(!DQ.isSatisfied(DS)) run<ShapeDistanceTraversalNode<A,B,NS>>(in,(const A&)*O1,X1,(const B&)*O2,X2); out[0]=DS.min_distance; }
template<class V> struct ONode { template<class B> using T=MeshShapeDistanceTraversalNode<V,B,NS>; enum{o=0}; };
template<> struct ONode<RSS<double>> { template<class B> using T=MeshShapeDistanceTraversalNodeRSS<B,NS>; enum{o=1}; };
template<> struct ONode<kIOS<double>> { template<class B> using T=MeshShapeDistanceTraversalNodekIOS<B,NS>; enum{o=1}; };
template<> struct ONode<OBBRSS<double>> { template<class B> using T=MeshShapeDistanceTraversalNodeOBBRSS<B,NS>; enum{o=1}; };
template<class V> struct MNode { typedef MeshDistanceTraversalNode<V> T; enum{o=0}; };
template<> struct MNode<RSS<double>> { typedef MeshDistanceTraversalNodeRSS<double> T; enum{o=1}; };
template<> struct MNode<kIOS<double>> { typedef MeshDistanceTraversalNodekIOS<double> T; enum{o=1}; };
template<> struct MNode<OBBRSS<double>> { typedef MeshDistanceTraversalNodeOBBRSS<double> T; enum{o=1}; };
template<bool O> struct Do { template<class V,class N,class B> static inline void go(const double*in,N&n,const V&a,const B&b) { initialize(n,a,X1,b,X2,SV,DQ,DS); distance<double>(&n,nullptr,2); } template<class V,class N> static inline void go2(const double*in,N&n,const V&a,const V&b) { initialize(n,a,X1,b,X2,DQ,DS); distance<double>(&n,nullptr,2); } };
template<> struct Do<false> { template<class V,class N,class B> static inline void go(const double*in,N&n,const V&a,const B&b) { V*t=new V(a); T3 y=X1; initialize(n,*t,y,b,X2,SV,DQ,DS); distance<double>(&n,nullptr,2); delete t; } template<class V,class N> static inline void go2(const double*in,N&n,const V&a,const V&b) { V*t=new V(a); T3 y=X1; V*u=new V(b); T3 z=X2; initialize(n,*t,y,*u,z,DQ,DS); distance<double>(&n,nullptr,2); delete t; delete u; } };
template<class V,class B> static inline void d_vs(const double*in,double*out){ typedef BVHModel<V> M; if(!DQ.isSatisfied(DS)) { typename ONode<V>::template T<B> n; Do<ONode<V>::o>::template go<M>(in,n,(const M&)*O1,(const B&)*O2); } out[0]=DS.min_distance; }
template<class V> static inline void d_vv(const double*in,double*out){ typedef BVHModel<V> M; if(!DQ.isSatisfied(DS)) { typename MNode<V>::T n; Do<MNode<V>::o>::template go2<M>(in,n,(const M&)*O1,(const M&)*O2); } out[0]=DS.min_distance; }
typedef OcTree<double> OT; typedef OcTreeSolver<NS> OS;
template<class N,class A,class B> static inline void oct(const double*in,double*out,const A&a,const B&b){ if(!DQ.isSatisfied(DS)) { N n; OS s(SV); initialize(n,a,X1,b,X2,&s,DQ,DS); distance<double>(&n,nullptr,2); } out[0]=DS.min_distance; }
template<class A> static inline void d_so(const double*in,double*out){ oct<ShapeOcTreeDistanceTraversalNode<A,NS>>(in,out,(const A&)*O1,(const OT&)*O2); }
template<class A> static inline void d_os(const double*in,double*out){ oct<OcTreeShapeDistanceTraversalNode<A,NS>>(in,out,(const OT&)*O1,(const A&)*O2); }
static inline void d_oo(const double*in,double*out){ oct<OcTreeDistanceTraversalNode<NS>>(in,out,(const OT&)*O1,(const OT&)*O2); }
template<class V> static inline void d_ov(const double*in,double*out){ oct<OcTreeMeshDistanceTraversalNode<V,NS>>(in,out,(const OT&)*O1,(const BVHModel<V>&)*O2); }
template<class V> static inline void d_vo(const double*in,double*out){ oct<MeshOcTreeDistanceTraversalNode<V,NS>>(in,out,(const BVHModel<V>&)*O1,(const OT&)*O2); }
#endif
#if CHK==1
//@ c_BOX_BOX what="collide table entry Box, Box" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_BOX_BOX(const double*in,double*out){ icol(GEOM_BOX,GEOM_BOX,in,out); } PROBE spec_c_BOX_BOX(const double*in,double*out){ c_ss<Box<double>,Box<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_BOX_SPHERE what="collide table entry Box, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_BOX_SPHERE(const double*in,double*out){ icol(GEOM_BOX,GEOM_SPHERE,in,out); } PROBE spec_c_BOX_SPHERE(const double*in,double*out){ c_ss<Box<double>,Sphere<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_BOX_ELLIPSOID what="collide table entry Box, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_BOX_ELLIPSOID(const double*in,double*out){ icol(GEOM_BOX,GEOM_ELLIPSOID,in,out); } PROBE spec_c_BOX_ELLIPSOID(const double*in,double*out){ c_ss<Box<double>,Ellipsoid<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_BOX_CAPSULE what="collide table entry Box, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_BOX_CAPSULE(const double*in,double*out){ icol(GEOM_BOX,GEOM_CAPSULE,in,out); } PROBE spec_c_BOX_CAPSULE(const double*in,double*out){ c_ss<Box<double>,Capsule<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_BOX_CONE what="collide table entry Box, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_BOX_CONE(const double*in,double*out){ icol(GEOM_BOX,GEOM_CONE,in,out); } PROBE spec_c_BOX_CONE(const double*in,double*out){ c_ss<Box<double>,Cone<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_BOX_CYLINDER what="collide table entry Box, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_BOX_CYLINDER(const double*in,double*out){ icol(GEOM_BOX,GEOM_CYLINDER,in,out); } PROBE spec_c_BOX_CYLINDER(const double*in,double*out){ c_ss<Box<double>,Cylinder<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_BOX_CONVEX what="collide table entry Box, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_BOX_CONVEX(const double*in,double*out){ icol(GEOM_BOX,GEOM_CONVEX,in,out); } PROBE spec_c_BOX_CONVEX(const double*in,double*out){ c_ss<Box<double>,Convex<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_BOX_PLANE what="collide table entry Box, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_BOX_PLANE(const double*in,double*out){ icol(GEOM_BOX,GEOM_PLANE,in,out); } PROBE spec_c_BOX_PLANE(const double*in,double*out){ c_ss<Box<double>,Plane<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_BOX_HALFSPACE what="collide table entry Box, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_BOX_HALFSPACE(const double*in,double*out){ icol(GEOM_BOX,GEOM_HALFSPACE,in,out); } PROBE spec_c_BOX_HALFSPACE(const double*in,double*out){ c_ss<Box<double>,Halfspace<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_SPHERE_BOX what="collide table entry Sphere, Box" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_SPHERE_BOX(const double*in,double*out){ icol(GEOM_SPHERE,GEOM_BOX,in,out); } PROBE spec_c_SPHERE_BOX(const double*in,double*out){ c_ss<Sphere<double>,Box<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_SPHERE_SPHERE what="collide table entry Sphere, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_SPHERE_SPHERE(const double*in,double*out){ icol(GEOM_SPHERE,GEOM_SPHERE,in,out); } PROBE spec_c_SPHERE_SPHERE(const double*in,double*out){ c_ss<Sphere<double>,Sphere<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_SPHERE_ELLIPSOID what="collide table entry Sphere, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_SPHERE_ELLIPSOID(const double*in,double*out){ icol(GEOM_SPHERE,GEOM_ELLIPSOID,in,out); } PROBE spec_c_SPHERE_ELLIPSOID(const double*in,double*out){ c_ss<Sphere<double>,Ellipsoid<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_SPHERE_CAPSULE what="collide table entry Sphere, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_SPHERE_CAPSULE(const double*in,double*out){ icol(GEOM_SPHERE,GEOM_CAPSULE,in,out); } PROBE spec_c_SPHERE_CAPSULE(const double*in,double*out){ c_ss<Sphere<double>,Capsule<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_SPHERE_CONE what="collide table entry Sphere, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_SPHERE_CONE(const double*in,double*out){ icol(GEOM_SPHERE,GEOM_CONE,in,out); } PROBE spec_c_SPHERE_CONE(const double*in,double*out){ c_ss<Sphere<double>,Cone<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_SPHERE_CYLINDER what="collide table entry Sphere, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_SPHERE_CYLINDER(const double*in,double*out){ icol(GEOM_SPHERE,GEOM_CYLINDER,in,out); } PROBE spec_c_SPHERE_CYLINDER(const double*in,double*out){ c_ss<Sphere<double>,Cylinder<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_SPHERE_CONVEX what="collide table entry Sphere, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_SPHERE_CONVEX(const double*in,double*out){ icol(GEOM_SPHERE,GEOM_CONVEX,in,out); } PROBE spec_c_SPHERE_CONVEX(const double*in,double*out){ c_ss<Sphere<double>,Convex<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_SPHERE_PLANE what="collide table entry Sphere, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_SPHERE_PLANE(const double*in,double*out){ icol(GEOM_SPHERE,GEOM_PLANE,in,out); } PROBE spec_c_SPHERE_PLANE(const double*in,double*out){ c_ss<Sphere<double>,Plane<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_SPHERE_HALFSPACE what="collide table entry Sphere, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_SPHERE_HALFSPACE(const double*in,double*out){ icol(GEOM_SPHERE,GEOM_HALFSPACE,in,out); } PROBE spec_c_SPHERE_HALFSPACE(const double*in,double*out){ c_ss<Sphere<double>,Halfspace<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_ELLIPSOID_BOX what="collide table entry Ellipsoid, Box" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_ELLIPSOID_BOX(const double*in,double*out){ icol(GEOM_ELLIPSOID,GEOM_BOX,in,out); } PROBE spec_c_ELLIPSOID_BOX(const double*in,double*out){ c_ss<Ellipsoid<double>,Box<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_ELLIPSOID_SPHERE what="collide table entry Ellipsoid, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_ELLIPSOID_SPHERE(const double*in,double*out){ icol(GEOM_ELLIPSOID,GEOM_SPHERE,in,out); } PROBE spec_c_ELLIPSOID_SPHERE(const double*in,double*out){ c_ss<Ellipsoid<double>,Sphere<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_ELLIPSOID_ELLIPSOID what="collide table entry Ellipsoid, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_ELLIPSOID_ELLIPSOID(const double*in,double*out){ icol(GEOM_ELLIPSOID,GEOM_ELLIPSOID,in,out); } PROBE spec_c_ELLIPSOID_ELLIPSOID(const double*in,double*out){ c_ss<Ellipsoid<double>,Ellipsoid<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_ELLIPSOID_CAPSULE what="collide table entry Ellipsoid, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_ELLIPSOID_CAPSULE(const double*in,double*out){ icol(GEOM_ELLIPSOID,GEOM_CAPSULE,in,out); } PROBE spec_c_ELLIPSOID_CAPSULE(const double*in,double*out){ c_ss<Ellipsoid<double>,Capsule<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_ELLIPSOID_CONE what="collide table entry Ellipsoid, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_ELLIPSOID_CONE(const double*in,double*out){ icol(GEOM_ELLIPSOID,GEOM_CONE,in,out); } PROBE spec_c_ELLIPSOID_CONE(const double*in,double*out){ c_ss<Ellipsoid<double>,Cone<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_ELLIPSOID_CYLINDER what="collide table entry Ellipsoid, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_ELLIPSOID_CYLINDER(const double*in,double*out){ icol(GEOM_ELLIPSOID,GEOM_CYLINDER,in,out); } PROBE spec_c_ELLIPSOID_CYLINDER(const double*in,double*out){ c_ss<Ellipsoid<double>,Cylinder<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_ELLIPSOID_CONVEX what="collide table entry Ellipsoid, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_ELLIPSOID_CONVEX(const double*in,double*out){ icol(GEOM_ELLIPSOID,GEOM_CONVEX,in,out); } PROBE spec_c_ELLIPSOID_CONVEX(const double*in,double*out){ c_ss<Ellipsoid<double>,Convex<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_ELLIPSOID_PLANE what="collide table entry Ellipsoid, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_ELLIPSOID_PLANE(const double*in,double*out){ icol(GEOM_ELLIPSOID,GEOM_PLANE,in,out); } PROBE spec_c_ELLIPSOID_PLANE(const double*in,double*out){ c_ss<Ellipsoid<double>,Plane<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_ELLIPSOID_HALFSPACE what="collide table entry Ellipsoid, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_ELLIPSOID_HALFSPACE(const double*in,double*out){ icol(GEOM_ELLIPSOID,GEOM_HALFSPACE,in,out); } PROBE spec_c_ELLIPSOID_HALFSPACE(const double*in,double*out){ c_ss<Ellipsoid<double>,Halfspace<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CAPSULE_BOX what="collide table entry Capsule, Box" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CAPSULE_BOX(const double*in,double*out){ icol(GEOM_CAPSULE,GEOM_BOX,in,out); } PROBE spec_c_CAPSULE_BOX(const double*in,double*out){ c_ss<Capsule<double>,Box<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CAPSULE_SPHERE what="collide table entry Capsule, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CAPSULE_SPHERE(const double*in,double*out){ icol(GEOM_CAPSULE,GEOM_SPHERE,in,out); } PROBE spec_c_CAPSULE_SPHERE(const double*in,double*out){ c_ss<Capsule<double>,Sphere<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CAPSULE_ELLIPSOID what="collide table entry Capsule, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CAPSULE_ELLIPSOID(const double*in,double*out){ icol(GEOM_CAPSULE,GEOM_ELLIPSOID,in,out); } PROBE spec_c_CAPSULE_ELLIPSOID(const double*in,double*out){ c_ss<Capsule<double>,Ellipsoid<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CAPSULE_CAPSULE what="collide table entry Capsule, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CAPSULE_CAPSULE(const double*in,double*out){ icol(GEOM_CAPSULE,GEOM_CAPSULE,in,out); } PROBE spec_c_CAPSULE_CAPSULE(const double*in,double*out){ c_ss<Capsule<double>,Capsule<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CAPSULE_CONE what="collide table entry Capsule, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CAPSULE_CONE(const double*in,double*out){ icol(GEOM_CAPSULE,GEOM_CONE,in,out); } PROBE spec_c_CAPSULE_CONE(const double*in,double*out){ c_ss<Capsule<double>,Cone<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CAPSULE_CYLINDER what="collide table entry Capsule, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CAPSULE_CYLINDER(const double*in,double*out){ icol(GEOM_CAPSULE,GEOM_CYLINDER,in,out); } PROBE spec_c_CAPSULE_CYLINDER(const double*in,double*out){ c_ss<Capsule<double>,Cylinder<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CAPSULE_CONVEX what="collide table entry Capsule, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CAPSULE_CONVEX(const double*in,double*out){ icol(GEOM_CAPSULE,GEOM_CONVEX,in,out); } PROBE spec_c_CAPSULE_CONVEX(const double*in,double*out){ c_ss<Capsule<double>,Convex<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CAPSULE_PLANE what="collide table entry Capsule, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CAPSULE_PLANE(const double*in,double*out){ icol(GEOM_CAPSULE,GEOM_PLANE,in,out); } PROBE spec_c_CAPSULE_PLANE(const double*in,double*out){ c_ss<Capsule<double>,Plane<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CAPSULE_HALFSPACE what="collide table entry Capsule, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CAPSULE_HALFSPACE(const double*in,double*out){ icol(GEOM_CAPSULE,GEOM_HALFSPACE,in,out); } PROBE spec_c_CAPSULE_HALFSPACE(const double*in,double*out){ c_ss<Capsule<double>,Halfspace<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONE_BOX what="collide table entry Cone, Box" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONE_BOX(const double*in,double*out){ icol(GEOM_CONE,GEOM_BOX,in,out); } PROBE spec_c_CONE_BOX(const double*in,double*out){ c_ss<Cone<double>,Box<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONE_SPHERE what="collide table entry Cone, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONE_SPHERE(const double*in,double*out){ icol(GEOM_CONE,GEOM_SPHERE,in,out); } PROBE spec_c_CONE_SPHERE(const double*in,double*out){ c_ss<Cone<double>,Sphere<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONE_ELLIPSOID what="collide table entry Cone, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONE_ELLIPSOID(const double*in,double*out){ icol(GEOM_CONE,GEOM_ELLIPSOID,in,out); } PROBE spec_c_CONE_ELLIPSOID(const double*in,double*out){ c_ss<Cone<double>,Ellipsoid<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONE_CAPSULE what="collide table entry Cone, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONE_CAPSULE(const double*in,double*out){ icol(GEOM_CONE,GEOM_CAPSULE,in,out); } PROBE spec_c_CONE_CAPSULE(const double*in,double*out){ c_ss<Cone<double>,Capsule<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONE_CONE what="collide table entry Cone, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONE_CONE(const double*in,double*out){ icol(GEOM_CONE,GEOM_CONE,in,out); } PROBE spec_c_CONE_CONE(const double*in,double*out){ c_ss<Cone<double>,Cone<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONE_CYLINDER what="collide table entry Cone, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONE_CYLINDER(const double*in,double*out){ icol(GEOM_CONE,GEOM_CYLINDER,in,out); } PROBE spec_c_CONE_CYLINDER(const double*in,double*out){ c_ss<Cone<double>,Cylinder<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONE_CONVEX what="collide table entry Cone, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONE_CONVEX(const double*in,double*out){ icol(GEOM_CONE,GEOM_CONVEX,in,out); } PROBE spec_c_CONE_CONVEX(const double*in,double*out){ c_ss<Cone<double>,Convex<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONE_PLANE what="collide table entry Cone, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONE_PLANE(const double*in,double*out){ icol(GEOM_CONE,GEOM_PLANE,in,out); } PROBE spec_c_CONE_PLANE(const double*in,double*out){ c_ss<Cone<double>,Plane<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONE_HALFSPACE what="collide table entry Cone, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONE_HALFSPACE(const double*in,double*out){ icol(GEOM_CONE,GEOM_HALFSPACE,in,out); } PROBE spec_c_CONE_HALFSPACE(const double*in,double*out){ c_ss<Cone<double>,Halfspace<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CYLINDER_BOX what="collide table entry Cylinder, Box" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CYLINDER_BOX(const double*in,double*out){ icol(GEOM_CYLINDER,GEOM_BOX,in,out); } PROBE spec_c_CYLINDER_BOX(const double*in,double*out){ c_ss<Cylinder<double>,Box<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CYLINDER_SPHERE what="collide table entry Cylinder, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CYLINDER_SPHERE(const double*in,double*out){ icol(GEOM_CYLINDER,GEOM_SPHERE,in,out); } PROBE spec_c_CYLINDER_SPHERE(const double*in,double*out){ c_ss<Cylinder<double>,Sphere<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CYLINDER_ELLIPSOID what="collide table entry Cylinder, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CYLINDER_ELLIPSOID(const double*in,double*out){ icol(GEOM_CYLINDER,GEOM_ELLIPSOID,in,out); } PROBE spec_c_CYLINDER_ELLIPSOID(const double*in,double*out){ c_ss<Cylinder<double>,Ellipsoid<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CYLINDER_CAPSULE what="collide table entry Cylinder, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CYLINDER_CAPSULE(const double*in,double*out){ icol(GEOM_CYLINDER,GEOM_CAPSULE,in,out); } PROBE spec_c_CYLINDER_CAPSULE(const double*in,double*out){ c_ss<Cylinder<double>,Capsule<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CYLINDER_CONE what="collide table entry Cylinder, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CYLINDER_CONE(const double*in,double*out){ icol(GEOM_CYLINDER,GEOM_CONE,in,out); } PROBE spec_c_CYLINDER_CONE(const double*in,double*out){ c_ss<Cylinder<double>,Cone<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CYLINDER_CYLINDER what="collide table entry Cylinder, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CYLINDER_CYLINDER(const double*in,double*out){ icol(GEOM_CYLINDER,GEOM_CYLINDER,in,out); } PROBE spec_c_CYLINDER_CYLINDER(const double*in,double*out){ c_ss<Cylinder<double>,Cylinder<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CYLINDER_CONVEX what="collide table entry Cylinder, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CYLINDER_CONVEX(const double*in,double*out){ icol(GEOM_CYLINDER,GEOM_CONVEX,in,out); } PROBE spec_c_CYLINDER_CONVEX(const double*in,double*out){ c_ss<Cylinder<double>,Convex<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CYLINDER_PLANE what="collide table entry Cylinder, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CYLINDER_PLANE(const double*in,double*out){ icol(GEOM_CYLINDER,GEOM_PLANE,in,out); } PROBE spec_c_CYLINDER_PLANE(const double*in,double*out){ c_ss<Cylinder<double>,Plane<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CYLINDER_HALFSPACE what="collide table entry Cylinder, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CYLINDER_HALFSPACE(const double*in,double*out){ icol(GEOM_CYLINDER,GEOM_HALFSPACE,in,out); } PROBE spec_c_CYLINDER_HALFSPACE(const double*in,double*out){ c_ss<Cylinder<double>,Halfspace<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONVEX_BOX what="collide table entry Convex, Box" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONVEX_BOX(const double*in,double*out){ icol(GEOM_CONVEX,GEOM_BOX,in,out); } PROBE spec_c_CONVEX_BOX(const double*in,double*out){ c_ss<Convex<double>,Box<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONVEX_SPHERE what="collide table entry Convex, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONVEX_SPHERE(const double*in,double*out){ icol(GEOM_CONVEX,GEOM_SPHERE,in,out); } PROBE spec_c_CONVEX_SPHERE(const double*in,double*out){ c_ss<Convex<double>,Sphere<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONVEX_ELLIPSOID what="collide table entry Convex, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONVEX_ELLIPSOID(const double*in,double*out){ icol(GEOM_CONVEX,GEOM_ELLIPSOID,in,out); } PROBE spec_c_CONVEX_ELLIPSOID(const double*in,double*out){ c_ss<Convex<double>,Ellipsoid<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONVEX_CAPSULE what="collide table entry Convex, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONVEX_CAPSULE(const double*in,double*out){ icol(GEOM_CONVEX,GEOM_CAPSULE,in,out); } PROBE spec_c_CONVEX_CAPSULE(const double*in,double*out){ c_ss<Convex<double>,Capsule<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONVEX_CONE what="collide table entry Convex, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONVEX_CONE(const double*in,double*out){ icol(GEOM_CONVEX,GEOM_CONE,in,out); } PROBE spec_c_CONVEX_CONE(const double*in,double*out){ c_ss<Convex<double>,Cone<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONVEX_CYLINDER what="collide table entry Convex, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONVEX_CYLINDER(const double*in,double*out){ icol(GEOM_CONVEX,GEOM_CYLINDER,in,out); } PROBE spec_c_CONVEX_CYLINDER(const double*in,double*out){ c_ss<Convex<double>,Cylinder<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONVEX_CONVEX what="collide table entry Convex, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONVEX_CONVEX(const double*in,double*out){ icol(GEOM_CONVEX,GEOM_CONVEX,in,out); } PROBE spec_c_CONVEX_CONVEX(const double*in,double*out){ c_ss<Convex<double>,Convex<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONVEX_PLANE what="collide table entry Convex, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONVEX_PLANE(const double*in,double*out){ icol(GEOM_CONVEX,GEOM_PLANE,in,out); } PROBE spec_c_CONVEX_PLANE(const double*in,double*out){ c_ss<Convex<double>,Plane<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_CONVEX_HALFSPACE what="collide table entry Convex, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_CONVEX_HALFSPACE(const double*in,double*out){ icol(GEOM_CONVEX,GEOM_HALFSPACE,in,out); } PROBE spec_c_CONVEX_HALFSPACE(const double*in,double*out){ c_ss<Convex<double>,Halfspace<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_PLANE_BOX what="collide table entry Plane, Box" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_PLANE_BOX(const double*in,double*out){ icol(GEOM_PLANE,GEOM_BOX,in,out); } PROBE spec_c_PLANE_BOX(const double*in,double*out){ c_ss<Plane<double>,Box<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_PLANE_SPHERE what="collide table entry Plane, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_PLANE_SPHERE(const double*in,double*out){ icol(GEOM_PLANE,GEOM_SPHERE,in,out); } PROBE spec_c_PLANE_SPHERE(const double*in,double*out){ c_ss<Plane<double>,Sphere<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_PLANE_ELLIPSOID what="collide table entry Plane, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_PLANE_ELLIPSOID(const double*in,double*out){ icol(GEOM_PLANE,GEOM_ELLIPSOID,in,out); } PROBE spec_c_PLANE_ELLIPSOID(const double*in,double*out){ c_ss<Plane<double>,Ellipsoid<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_PLANE_CAPSULE what="collide table entry Plane, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_PLANE_CAPSULE(const double*in,double*out){ icol(GEOM_PLANE,GEOM_CAPSULE,in,out); } PROBE spec_c_PLANE_CAPSULE(const double*in,double*out){ c_ss<Plane<double>,Capsule<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_PLANE_CONE what="collide table entry Plane, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_PLANE_CONE(const double*in,double*out){ icol(GEOM_PLANE,GEOM_CONE,in,out); } PROBE spec_c_PLANE_CONE(const double*in,double*out){ c_ss<Plane<double>,Cone<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_PLANE_CYLINDER what="collide table entry Plane, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_PLANE_CYLINDER(const double*in,double*out){ icol(GEOM_PLANE,GEOM_CYLINDER,in,out); } PROBE spec_c_PLANE_CYLINDER(const double*in,double*out){ c_ss<Plane<double>,Cylinder<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_PLANE_CONVEX what="collide table entry Plane, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_PLANE_CONVEX(const double*in,double*out){ icol(GEOM_PLANE,GEOM_CONVEX,in,out); } PROBE spec_c_PLANE_CONVEX(const double*in,double*out){ c_ss<Plane<double>,Convex<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_PLANE_PLANE what="collide table entry Plane, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_PLANE_PLANE(const double*in,double*out){ icol(GEOM_PLANE,GEOM_PLANE,in,out); } PROBE spec_c_PLANE_PLANE(const double*in,double*out){ c_ss<Plane<double>,Plane<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_PLANE_HALFSPACE what="collide table entry Plane, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_PLANE_HALFSPACE(const double*in,double*out){ icol(GEOM_PLANE,GEOM_HALFSPACE,in,out); } PROBE spec_c_PLANE_HALFSPACE(const double*in,double*out){ c_ss<Plane<double>,Halfspace<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_HALFSPACE_BOX what="collide table entry Halfspace, Box" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_HALFSPACE_BOX(const double*in,double*out){ icol(GEOM_HALFSPACE,GEOM_BOX,in,out); } PROBE spec_c_HALFSPACE_BOX(const double*in,double*out){ c_ss<Halfspace<double>,Box<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_HALFSPACE_SPHERE what="collide table entry Halfspace, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_HALFSPACE_SPHERE(const double*in,double*out){ icol(GEOM_HALFSPACE,GEOM_SPHERE,in,out); } PROBE spec_c_HALFSPACE_SPHERE(const double*in,double*out){ c_ss<Halfspace<double>,Sphere<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_HALFSPACE_ELLIPSOID what="collide table entry Halfspace, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_HALFSPACE_ELLIPSOID(const double*in,double*out){ icol(GEOM_HALFSPACE,GEOM_ELLIPSOID,in,out); } PROBE spec_c_HALFSPACE_ELLIPSOID(const double*in,double*out){ c_ss<Halfspace<double>,Ellipsoid<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_HALFSPACE_CAPSULE what="collide table entry Halfspace, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_HALFSPACE_CAPSULE(const double*in,double*out){ icol(GEOM_HALFSPACE,GEOM_CAPSULE,in,out); } PROBE spec_c_HALFSPACE_CAPSULE(const double*in,double*out){ c_ss<Halfspace<double>,Capsule<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_HALFSPACE_CONE what="collide table entry Halfspace, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_HALFSPACE_CONE(const double*in,double*out){ icol(GEOM_HALFSPACE,GEOM_CONE,in,out); } PROBE spec_c_HALFSPACE_CONE(const double*in,double*out){ c_ss<Halfspace<double>,Cone<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_HALFSPACE_CYLINDER what="collide table entry Halfspace, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_HALFSPACE_CYLINDER(const double*in,double*out){ icol(GEOM_HALFSPACE,GEOM_CYLINDER,in,out); } PROBE spec_c_HALFSPACE_CYLINDER(const double*in,double*out){ c_ss<Halfspace<double>,Cylinder<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_HALFSPACE_CONVEX what="collide table entry Halfspace, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_HALFSPACE_CONVEX(const double*in,double*out){ icol(GEOM_HALFSPACE,GEOM_CONVEX,in,out); } PROBE spec_c_HALFSPACE_CONVEX(const double*in,double*out){ c_ss<Halfspace<double>,Convex<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_HALFSPACE_PLANE what="collide table entry Halfspace, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_HALFSPACE_PLANE(const double*in,double*out){ icol(GEOM_HALFSPACE,GEOM_PLANE,in,out); } PROBE spec_c_HALFSPACE_PLANE(const double*in,double*out){ c_ss<Halfspace<double>,Plane<double>>(in,out,O1,X1,O2,X2,RQ); }
//@ c_HALFSPACE_HALFSPACE what="collide table entry Halfspace, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:1
PROBE impl_c_HALFSPACE_HALFSPACE(const double*in,double*out){ icol(GEOM_HALFSPACE,GEOM_HALFSPACE,in,out); } PROBE spec_c_HALFSPACE_HALFSPACE(const double*in,double*out){ c_ss<Halfspace<double>,Halfspace<double>>(in,out,O1,X1,O2,X2,RQ); }
#endif
#if CHK==2
//@ c_AABB_BOX what="collide table entry mesh of AABB, Box" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_AABB_BOX(const double*in,double*out){ icol(BV_AABB,GEOM_BOX,in,out); } PROBE spec_c_AABB_BOX(const double*in,double*out){ c_vs<AABB<double>,Box<double>>(in,out); }
//@ c_AABB_SPHERE what="collide table entry mesh of AABB, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_AABB_SPHERE(const double*in,double*out){ icol(BV_AABB,GEOM_SPHERE,in,out); } PROBE spec_c_AABB_SPHERE(const double*in,double*out){ c_vs<AABB<double>,Sphere<double>>(in,out); }
//@ c_AABB_ELLIPSOID what="collide table entry mesh of AABB, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_AABB_ELLIPSOID(const double*in,double*out){ icol(BV_AABB,GEOM_ELLIPSOID,in,out); } PROBE spec_c_AABB_ELLIPSOID(const double*in,double*out){ c_vs<AABB<double>,Ellipsoid<double>>(in,out); }
//@ c_AABB_CAPSULE what="collide table entry mesh of AABB, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_AABB_CAPSULE(const double*in,double*out){ icol(BV_AABB,GEOM_CAPSULE,in,out); } PROBE spec_c_AABB_CAPSULE(const double*in,double*out){ c_vs<AABB<double>,Capsule<double>>(in,out); }
//@ c_AABB_CONE what="collide table entry mesh of AABB, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_AABB_CONE(const double*in,double*out){ icol(BV_AABB,GEOM_CONE,in,out); } PROBE spec_c_AABB_CONE(const double*in,double*out){ c_vs<AABB<double>,Cone<double>>(in,out); }
//@ c_AABB_CYLINDER what="collide table entry mesh of AABB, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_AABB_CYLINDER(const double*in,double*out){ icol(BV_AABB,GEOM_CYLINDER,in,out); } PROBE spec_c_AABB_CYLINDER(const double*in,double*out){ c_vs<AABB<double>,Cylinder<double>>(in,out); }
//@ c_AABB_CONVEX what="collide table entry mesh of AABB, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_AABB_CONVEX(const double*in,double*out){ icol(BV_AABB,GEOM_CONVEX,in,out); } PROBE spec_c_AABB_CONVEX(const double*in,double*out){ c_vs<AABB<double>,Convex<double>>(in,out); }
//@ c_AABB_PLANE what="collide table entry mesh of AABB, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_AABB_PLANE(const double*in,double*out){ icol(BV_AABB,GEOM_PLANE,in,out); } PROBE spec_c_AABB_PLANE(const double*in,double*out){ c_vs<AABB<double>,Plane<double>>(in,out); }
//@ c_AABB_HALFSPACE what="collide table entry mesh of AABB, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_AABB_HALFSPACE(const double*in,double*out){ icol(BV_AABB,GEOM_HALFSPACE,in,out); } PROBE spec_c_AABB_HALFSPACE(const double*in,double*out){ c_vs<AABB<double>,Halfspace<double>>(in,out); }
//@ c_AABB_AABB what="collide table entry meshes of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_AABB_AABB(const double*in,double*out){ icol(BV_AABB,BV_AABB,in,out); } PROBE spec_c_AABB_AABB(const double*in,double*out){ c_vv<AABB<double>>(in,out); }
//@ c_AABB_OT what="collide table entry mesh of AABB, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_AABB_OT(const double*in,double*out){ icol(BV_AABB,GEOM_OCTREE,in,out); } PROBE spec_c_AABB_OT(const double*in,double*out){ c_vo<AABB<double>>(in,out); }
//@ c_OT_AABB what="collide table entry octree, mesh of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_AABB(const double*in,double*out){ icol(GEOM_OCTREE,BV_AABB,in,out); } PROBE spec_c_OT_AABB(const double*in,double*out){ c_ov<AABB<double>>(in,out); }
//@ c_OBB_BOX what="collide table entry mesh of OBB, Box" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBB_BOX(const double*in,double*out){ icol(BV_OBB,GEOM_BOX,in,out); } PROBE spec_c_OBB_BOX(const double*in,double*out){ c_vs<OBB<double>,Box<double>>(in,out); }
//@ c_OBB_SPHERE what="collide table entry mesh of OBB, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBB_SPHERE(const double*in,double*out){ icol(BV_OBB,GEOM_SPHERE,in,out); } PROBE spec_c_OBB_SPHERE(const double*in,double*out){ c_vs<OBB<double>,Sphere<double>>(in,out); }
//@ c_OBB_ELLIPSOID what="collide table entry mesh of OBB, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBB_ELLIPSOID(const double*in,double*out){ icol(BV_OBB,GEOM_ELLIPSOID,in,out); } PROBE spec_c_OBB_ELLIPSOID(const double*in,double*out){ c_vs<OBB<double>,Ellipsoid<double>>(in,out); }
//@ c_OBB_CAPSULE what="collide table entry mesh of OBB, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBB_CAPSULE(const double*in,double*out){ icol(BV_OBB,GEOM_CAPSULE,in,out); } PROBE spec_c_OBB_CAPSULE(const double*in,double*out){ c_vs<OBB<double>,Capsule<double>>(in,out); }
//@ c_OBB_CONE what="collide table entry mesh of OBB, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBB_CONE(const double*in,double*out){ icol(BV_OBB,GEOM_CONE,in,out); } PROBE spec_c_OBB_CONE(const double*in,double*out){ c_vs<OBB<double>,Cone<double>>(in,out); }
//@ c_OBB_CYLINDER what="collide table entry mesh of OBB, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBB_CYLINDER(const double*in,double*out){ icol(BV_OBB,GEOM_CYLINDER,in,out); } PROBE spec_c_OBB_CYLINDER(const double*in,double*out){ c_vs<OBB<double>,Cylinder<double>>(in,out); }
//@ c_OBB_CONVEX what="collide table entry mesh of OBB, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBB_CONVEX(const double*in,double*out){ icol(BV_OBB,GEOM_CONVEX,in,out); } PROBE spec_c_OBB_CONVEX(const double*in,double*out){ c_vs<OBB<double>,Convex<double>>(in,out); }
//@ c_OBB_PLANE what="collide table entry mesh of OBB, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBB_PLANE(const double*in,double*out){ icol(BV_OBB,GEOM_PLANE,in,out); } PROBE spec_c_OBB_PLANE(const double*in,double*out){ c_vs<OBB<double>,Plane<double>>(in,out); }
//@ c_OBB_HALFSPACE what="collide table entry mesh of OBB, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBB_HALFSPACE(const double*in,double*out){ icol(BV_OBB,GEOM_HALFSPACE,in,out); } PROBE spec_c_OBB_HALFSPACE(const double*in,double*out){ c_vs<OBB<double>,Halfspace<double>>(in,out); }
//@ c_OBB_OBB what="collide table entry meshes of OBB" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBB_OBB(const double*in,double*out){ icol(BV_OBB,BV_OBB,in,out); } PROBE spec_c_OBB_OBB(const double*in,double*out){ c_vv<OBB<double>>(in,out); }
//@ c_OBB_OT what="collide table entry mesh of OBB, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBB_OT(const double*in,double*out){ icol(BV_OBB,GEOM_OCTREE,in,out); } PROBE spec_c_OBB_OT(const double*in,double*out){ c_vo<OBB<double>>(in,out); }
//@ c_OT_OBB what="collide table entry octree, mesh of OBB" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_OBB(const double*in,double*out){ icol(GEOM_OCTREE,BV_OBB,in,out); } PROBE spec_c_OT_OBB(const double*in,double*out){ c_ov<OBB<double>>(in,out); }
//@ c_RSS_BOX what="collide table entry mesh of RSS, Box" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_RSS_BOX(const double*in,double*out){ icol(BV_RSS,GEOM_BOX,in,out); } PROBE spec_c_RSS_BOX(const double*in,double*out){ c_vs<RSS<double>,Box<double>>(in,out); }
//@ c_RSS_SPHERE what="collide table entry mesh of RSS, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_RSS_SPHERE(const double*in,double*out){ icol(BV_RSS,GEOM_SPHERE,in,out); } PROBE spec_c_RSS_SPHERE(const double*in,double*out){ c_vs<RSS<double>,Sphere<double>>(in,out); }
//@ c_RSS_ELLIPSOID what="collide table entry mesh of RSS, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_RSS_ELLIPSOID(const double*in,double*out){ icol(BV_RSS,GEOM_ELLIPSOID,in,out); } PROBE spec_c_RSS_ELLIPSOID(const double*in,double*out){ c_vs<RSS<double>,Ellipsoid<double>>(in,out); }
//@ c_RSS_CAPSULE what="collide table entry mesh of RSS, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_RSS_CAPSULE(const double*in,double*out){ icol(BV_RSS,GEOM_CAPSULE,in,out); } PROBE spec_c_RSS_CAPSULE(const double*in,double*out){ c_vs<RSS<double>,Capsule<double>>(in,out); }
//@ c_RSS_CONE what="collide table entry mesh of RSS, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_RSS_CONE(const double*in,double*out){ icol(BV_RSS,GEOM_CONE,in,out); } PROBE spec_c_RSS_CONE(const double*in,double*out){ c_vs<RSS<double>,Cone<double>>(in,out); }
//@ c_RSS_CYLINDER what="collide table entry mesh of RSS, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_RSS_CYLINDER(const double*in,double*out){ icol(BV_RSS,GEOM_CYLINDER,in,out); } PROBE spec_c_RSS_CYLINDER(const double*in,double*out){ c_vs<RSS<double>,Cylinder<double>>(in,out); }
//@ c_RSS_CONVEX what="collide table entry mesh of RSS, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_RSS_CONVEX(const double*in,double*out){ icol(BV_RSS,GEOM_CONVEX,in,out); } PROBE spec_c_RSS_CONVEX(const double*in,double*out){ c_vs<RSS<double>,Convex<double>>(in,out); }
//@ c_RSS_PLANE what="collide table entry mesh of RSS, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_RSS_PLANE(const double*in,double*out){ icol(BV_RSS,GEOM_PLANE,in,out); } PROBE spec_c_RSS_PLANE(const double*in,double*out){ c_vs<RSS<double>,Plane<double>>(in,out); }
//@ c_RSS_HALFSPACE what="collide table entry mesh of RSS, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_RSS_HALFSPACE(const double*in,double*out){ icol(BV_RSS,GEOM_HALFSPACE,in,out); } PROBE spec_c_RSS_HALFSPACE(const double*in,double*out){ c_vs<RSS<double>,Halfspace<double>>(in,out); }
//@ c_RSS_RSS what="collide table entry meshes of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_RSS_RSS(const double*in,double*out){ icol(BV_RSS,BV_RSS,in,out); } PROBE spec_c_RSS_RSS(const double*in,double*out){ c_vv<RSS<double>>(in,out); }
//@ c_RSS_OT what="collide table entry mesh of RSS, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_RSS_OT(const double*in,double*out){ icol(BV_RSS,GEOM_OCTREE,in,out); } PROBE spec_c_RSS_OT(const double*in,double*out){ c_vo<RSS<double>>(in,out); }
//@ c_OT_RSS what="collide table entry octree, mesh of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_RSS(const double*in,double*out){ icol(GEOM_OCTREE,BV_RSS,in,out); } PROBE spec_c_OT_RSS(const double*in,double*out){ c_ov<RSS<double>>(in,out); }
//@ c_kIOS_BOX what="collide table entry mesh of kIOS, Box" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_kIOS_BOX(const double*in,double*out){ icol(BV_kIOS,GEOM_BOX,in,out); } PROBE spec_c_kIOS_BOX(const double*in,double*out){ c_vs<kIOS<double>,Box<double>>(in,out); }
//@ c_kIOS_SPHERE what="collide table entry mesh of kIOS, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_kIOS_SPHERE(const double*in,double*out){ icol(BV_kIOS,GEOM_SPHERE,in,out); } PROBE spec_c_kIOS_SPHERE(const double*in,double*out){ c_vs<kIOS<double>,Sphere<double>>(in,out); }
//@ c_kIOS_ELLIPSOID what="collide table entry mesh of kIOS, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_kIOS_ELLIPSOID(const double*in,double*out){ icol(BV_kIOS,GEOM_ELLIPSOID,in,out); } PROBE spec_c_kIOS_ELLIPSOID(const double*in,double*out){ c_vs<kIOS<double>,Ellipsoid<double>>(in,out); }
//@ c_kIOS_CAPSULE what="collide table entry mesh of kIOS, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_kIOS_CAPSULE(const double*in,double*out){ icol(BV_kIOS,GEOM_CAPSULE,in,out); } PROBE spec_c_kIOS_CAPSULE(const double*in,double*out){ c_vs<kIOS<double>,Capsule<double>>(in,out); }
//@ c_kIOS_CONE what="collide table entry mesh of kIOS, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_kIOS_CONE(const double*in,double*out){ icol(BV_kIOS,GEOM_CONE,in,out); } PROBE spec_c_kIOS_CONE(const double*in,double*out){ c_vs<kIOS<double>,Cone<double>>(in,out); }
//@ c_kIOS_CYLINDER what="collide table entry mesh of kIOS, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_kIOS_CYLINDER(const double*in,double*out){ icol(BV_kIOS,GEOM_CYLINDER,in,out); } PROBE spec_c_kIOS_CYLINDER(const double*in,double*out){ c_vs<kIOS<double>,Cylinder<double>>(in,out); }
//@ c_kIOS_CONVEX what="collide table entry mesh of kIOS, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_kIOS_CONVEX(const double*in,double*out){ icol(BV_kIOS,GEOM_CONVEX,in,out); } PROBE spec_c_kIOS_CONVEX(const double*in,double*out){ c_vs<kIOS<double>,Convex<double>>(in,out); }
//@ c_kIOS_PLANE what="collide table entry mesh of kIOS, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_kIOS_PLANE(const double*in,double*out){ icol(BV_kIOS,GEOM_PLANE,in,out); } PROBE spec_c_kIOS_PLANE(const double*in,double*out){ c_vs<kIOS<double>,Plane<double>>(in,out); }
//@ c_kIOS_HALFSPACE what="collide table entry mesh of kIOS, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_kIOS_HALFSPACE(const double*in,double*out){ icol(BV_kIOS,GEOM_HALFSPACE,in,out); } PROBE spec_c_kIOS_HALFSPACE(const double*in,double*out){ c_vs<kIOS<double>,Halfspace<double>>(in,out); }
//@ c_kIOS_kIOS what="collide table entry meshes of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_kIOS_kIOS(const double*in,double*out){ icol(BV_kIOS,BV_kIOS,in,out); } PROBE spec_c_kIOS_kIOS(const double*in,double*out){ c_vv<kIOS<double>>(in,out); }
//@ c_kIOS_OT what="collide table entry mesh of kIOS, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_kIOS_OT(const double*in,double*out){ icol(BV_kIOS,GEOM_OCTREE,in,out); } PROBE spec_c_kIOS_OT(const double*in,double*out){ c_vo<kIOS<double>>(in,out); }
//@ c_OT_kIOS what="collide table entry octree, mesh of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_kIOS(const double*in,double*out){ icol(GEOM_OCTREE,BV_kIOS,in,out); } PROBE spec_c_OT_kIOS(const double*in,double*out){ c_ov<kIOS<double>>(in,out); }
//@ c_OBBRSS_BOX what="collide table entry mesh of OBBRSS, Box" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBBRSS_BOX(const double*in,double*out){ icol(BV_OBBRSS,GEOM_BOX,in,out); } PROBE spec_c_OBBRSS_BOX(const double*in,double*out){ c_vs<OBBRSS<double>,Box<double>>(in,out); }
//@ c_OBBRSS_SPHERE what="collide table entry mesh of OBBRSS, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBBRSS_SPHERE(const double*in,double*out){ icol(BV_OBBRSS,GEOM_SPHERE,in,out); } PROBE spec_c_OBBRSS_SPHERE(const double*in,double*out){ c_vs<OBBRSS<double>,Sphere<double>>(in,out); }
//@ c_OBBRSS_ELLIPSOID what="collide table entry mesh of OBBRSS, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBBRSS_ELLIPSOID(const double*in,double*out){ icol(BV_OBBRSS,GEOM_ELLIPSOID,in,out); } PROBE spec_c_OBBRSS_ELLIPSOID(const double*in,double*out){ c_vs<OBBRSS<double>,Ellipsoid<double>>(in,out); }
//@ c_OBBRSS_CAPSULE what="collide table entry mesh of OBBRSS, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBBRSS_CAPSULE(const double*in,double*out){ icol(BV_OBBRSS,GEOM_CAPSULE,in,out); } PROBE spec_c_OBBRSS_CAPSULE(const double*in,double*out){ c_vs<OBBRSS<double>,Capsule<double>>(in,out); }
//@ c_OBBRSS_CONE what="collide table entry mesh of OBBRSS, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBBRSS_CONE(const double*in,double*out){ icol(BV_OBBRSS,GEOM_CONE,in,out); } PROBE spec_c_OBBRSS_CONE(const double*in,double*out){ c_vs<OBBRSS<double>,Cone<double>>(in,out); }
//@ c_OBBRSS_CYLINDER what="collide table entry mesh of OBBRSS, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBBRSS_CYLINDER(const double*in,double*out){ icol(BV_OBBRSS,GEOM_CYLINDER,in,out); } PROBE spec_c_OBBRSS_CYLINDER(const double*in,double*out){ c_vs<OBBRSS<double>,Cylinder<double>>(in,out); }
//@ c_OBBRSS_CONVEX what="collide table entry mesh of OBBRSS, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBBRSS_CONVEX(const double*in,double*out){ icol(BV_OBBRSS,GEOM_CONVEX,in,out); } PROBE spec_c_OBBRSS_CONVEX(const double*in,double*out){ c_vs<OBBRSS<double>,Convex<double>>(in,out); }
//@ c_OBBRSS_PLANE what="collide table entry mesh of OBBRSS, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBBRSS_PLANE(const double*in,double*out){ icol(BV_OBBRSS,GEOM_PLANE,in,out); } PROBE spec_c_OBBRSS_PLANE(const double*in,double*out){ c_vs<OBBRSS<double>,Plane<double>>(in,out); }
//@ c_OBBRSS_HALFSPACE what="collide table entry mesh of OBBRSS, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBBRSS_HALFSPACE(const double*in,double*out){ icol(BV_OBBRSS,GEOM_HALFSPACE,in,out); } PROBE spec_c_OBBRSS_HALFSPACE(const double*in,double*out){ c_vs<OBBRSS<double>,Halfspace<double>>(in,out); }
//@ c_OBBRSS_OBBRSS what="collide table entry meshes of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBBRSS_OBBRSS(const double*in,double*out){ icol(BV_OBBRSS,BV_OBBRSS,in,out); } PROBE spec_c_OBBRSS_OBBRSS(const double*in,double*out){ c_vv<OBBRSS<double>>(in,out); }
//@ c_OBBRSS_OT what="collide table entry mesh of OBBRSS, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OBBRSS_OT(const double*in,double*out){ icol(BV_OBBRSS,GEOM_OCTREE,in,out); } PROBE spec_c_OBBRSS_OT(const double*in,double*out){ c_vo<OBBRSS<double>>(in,out); }
//@ c_OT_OBBRSS what="collide table entry octree, mesh of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_OBBRSS(const double*in,double*out){ icol(GEOM_OCTREE,BV_OBBRSS,in,out); } PROBE spec_c_OT_OBBRSS(const double*in,double*out){ c_ov<OBBRSS<double>>(in,out); }
//@ c_KDOP16_BOX what="collide table entry mesh of KDOP16, Box" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP16_BOX(const double*in,double*out){ icol(BV_KDOP16,GEOM_BOX,in,out); } PROBE spec_c_KDOP16_BOX(const double*in,double*out){ c_vs<KDOP<double,16>,Box<double>>(in,out); }
//@ c_KDOP16_SPHERE what="collide table entry mesh of KDOP16, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP16_SPHERE(const double*in,double*out){ icol(BV_KDOP16,GEOM_SPHERE,in,out); } PROBE spec_c_KDOP16_SPHERE(const double*in,double*out){ c_vs<KDOP<double,16>,Sphere<double>>(in,out); }
//@ c_KDOP16_ELLIPSOID what="collide table entry mesh of KDOP16, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP16_ELLIPSOID(const double*in,double*out){ icol(BV_KDOP16,GEOM_ELLIPSOID,in,out); } PROBE spec_c_KDOP16_ELLIPSOID(const double*in,double*out){ c_vs<KDOP<double,16>,Ellipsoid<double>>(in,out); }
//@ c_KDOP16_CAPSULE what="collide table entry mesh of KDOP16, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP16_CAPSULE(const double*in,double*out){ icol(BV_KDOP16,GEOM_CAPSULE,in,out); } PROBE spec_c_KDOP16_CAPSULE(const double*in,double*out){ c_vs<KDOP<double,16>,Capsule<double>>(in,out); }
//@ c_KDOP16_CONE what="collide table entry mesh of KDOP16, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP16_CONE(const double*in,double*out){ icol(BV_KDOP16,GEOM_CONE,in,out); } PROBE spec_c_KDOP16_CONE(const double*in,double*out){ c_vs<KDOP<double,16>,Cone<double>>(in,out); }
//@ c_KDOP16_CYLINDER what="collide table entry mesh of KDOP16, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP16_CYLINDER(const double*in,double*out){ icol(BV_KDOP16,GEOM_CYLINDER,in,out); } PROBE spec_c_KDOP16_CYLINDER(const double*in,double*out){ c_vs<KDOP<double,16>,Cylinder<double>>(in,out); }
//@ c_KDOP16_CONVEX what="collide table entry mesh of KDOP16, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP16_CONVEX(const double*in,double*out){ icol(BV_KDOP16,GEOM_CONVEX,in,out); } PROBE spec_c_KDOP16_CONVEX(const double*in,double*out){ c_vs<KDOP<double,16>,Convex<double>>(in,out); }
//@ c_KDOP16_PLANE what="collide table entry mesh of KDOP16, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP16_PLANE(const double*in,double*out){ icol(BV_KDOP16,GEOM_PLANE,in,out); } PROBE spec_c_KDOP16_PLANE(const double*in,double*out){ c_vs<KDOP<double,16>,Plane<double>>(in,out); }
//@ c_KDOP16_HALFSPACE what="collide table entry mesh of KDOP16, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP16_HALFSPACE(const double*in,double*out){ icol(BV_KDOP16,GEOM_HALFSPACE,in,out); } PROBE spec_c_KDOP16_HALFSPACE(const double*in,double*out){ c_vs<KDOP<double,16>,Halfspace<double>>(in,out); }
//@ c_KDOP16_KDOP16 what="collide table entry meshes of KDOP16" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP16_KDOP16(const double*in,double*out){ icol(BV_KDOP16,BV_KDOP16,in,out); } PROBE spec_c_KDOP16_KDOP16(const double*in,double*out){ c_vv<KDOP<double,16>>(in,out); }
//@ c_KDOP16_OT what="collide table entry mesh of KDOP16, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP16_OT(const double*in,double*out){ icol(BV_KDOP16,GEOM_OCTREE,in,out); } PROBE spec_c_KDOP16_OT(const double*in,double*out){ c_vo<KDOP<double,16>>(in,out); }
//@ c_OT_KDOP16 what="collide table entry octree, mesh of KDOP16" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_KDOP16(const double*in,double*out){ icol(GEOM_OCTREE,BV_KDOP16,in,out); } PROBE spec_c_OT_KDOP16(const double*in,double*out){ c_ov<KDOP<double,16>>(in,out); }
//@ c_KDOP18_BOX what="collide table entry mesh of KDOP18, Box" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP18_BOX(const double*in,double*out){ icol(BV_KDOP18,GEOM_BOX,in,out); } PROBE spec_c_KDOP18_BOX(const double*in,double*out){ c_vs<KDOP<double,18>,Box<double>>(in,out); }
//@ c_KDOP18_SPHERE what="collide table entry mesh of KDOP18, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP18_SPHERE(const double*in,double*out){ icol(BV_KDOP18,GEOM_SPHERE,in,out); } PROBE spec_c_KDOP18_SPHERE(const double*in,double*out){ c_vs<KDOP<double,18>,Sphere<double>>(in,out); }
//@ c_KDOP18_ELLIPSOID what="collide table entry mesh of KDOP18, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP18_ELLIPSOID(const double*in,double*out){ icol(BV_KDOP18,GEOM_ELLIPSOID,in,out); } PROBE spec_c_KDOP18_ELLIPSOID(const double*in,double*out){ c_vs<KDOP<double,18>,Ellipsoid<double>>(in,out); }
//@ c_KDOP18_CAPSULE what="collide table entry mesh of KDOP18, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP18_CAPSULE(const double*in,double*out){ icol(BV_KDOP18,GEOM_CAPSULE,in,out); } PROBE spec_c_KDOP18_CAPSULE(const double*in,double*out){ c_vs<KDOP<double,18>,Capsule<double>>(in,out); }
//@ c_KDOP18_CONE what="collide table entry mesh of KDOP18, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP18_CONE(const double*in,double*out){ icol(BV_KDOP18,GEOM_CONE,in,out); } PROBE spec_c_KDOP18_CONE(const double*in,double*out){ c_vs<KDOP<double,18>,Cone<double>>(in,out); }
//@ c_KDOP18_CYLINDER what="collide table entry mesh of KDOP18, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP18_CYLINDER(const double*in,double*out){ icol(BV_KDOP18,GEOM_CYLINDER,in,out); } PROBE spec_c_KDOP18_CYLINDER(const double*in,double*out){ c_vs<KDOP<double,18>,Cylinder<double>>(in,out); }
//@ c_KDOP18_CONVEX what="collide table entry mesh of KDOP18, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP18_CONVEX(const double*in,double*out){ icol(BV_KDOP18,GEOM_CONVEX,in,out); } PROBE spec_c_KDOP18_CONVEX(const double*in,double*out){ c_vs<KDOP<double,18>,Convex<double>>(in,out); }
//@ c_KDOP18_PLANE what="collide table entry mesh of KDOP18, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP18_PLANE(const double*in,double*out){ icol(BV_KDOP18,GEOM_PLANE,in,out); } PROBE spec_c_KDOP18_PLANE(const double*in,double*out){ c_vs<KDOP<double,18>,Plane<double>>(in,out); }
//@ c_KDOP18_HALFSPACE what="collide table entry mesh of KDOP18, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP18_HALFSPACE(const double*in,double*out){ icol(BV_KDOP18,GEOM_HALFSPACE,in,out); } PROBE spec_c_KDOP18_HALFSPACE(const double*in,double*out){ c_vs<KDOP<double,18>,Halfspace<double>>(in,out); }
//@ c_KDOP18_KDOP18 what="collide table entry meshes of KDOP18" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP18_KDOP18(const double*in,double*out){ icol(BV_KDOP18,BV_KDOP18,in,out); } PROBE spec_c_KDOP18_KDOP18(const double*in,double*out){ c_vv<KDOP<double,18>>(in,out); }
//@ c_KDOP18_OT what="collide table entry mesh of KDOP18, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP18_OT(const double*in,double*out){ icol(BV_KDOP18,GEOM_OCTREE,in,out); } PROBE spec_c_KDOP18_OT(const double*in,double*out){ c_vo<KDOP<double,18>>(in,out); }
//@ c_OT_KDOP18 what="collide table entry octree, mesh of KDOP18" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_KDOP18(const double*in,double*out){ icol(GEOM_OCTREE,BV_KDOP18,in,out); } PROBE spec_c_OT_KDOP18(const double*in,double*out){ c_ov<KDOP<double,18>>(in,out); }
//@ c_KDOP24_BOX what="collide table entry mesh of KDOP24, Box" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP24_BOX(const double*in,double*out){ icol(BV_KDOP24,GEOM_BOX,in,out); } PROBE spec_c_KDOP24_BOX(const double*in,double*out){ c_vs<KDOP<double,24>,Box<double>>(in,out); }
//@ c_KDOP24_SPHERE what="collide table entry mesh of KDOP24, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP24_SPHERE(const double*in,double*out){ icol(BV_KDOP24,GEOM_SPHERE,in,out); } PROBE spec_c_KDOP24_SPHERE(const double*in,double*out){ c_vs<KDOP<double,24>,Sphere<double>>(in,out); }
//@ c_KDOP24_ELLIPSOID what="collide table entry mesh of KDOP24, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP24_ELLIPSOID(const double*in,double*out){ icol(BV_KDOP24,GEOM_ELLIPSOID,in,out); } PROBE spec_c_KDOP24_ELLIPSOID(const double*in,double*out){ c_vs<KDOP<double,24>,Ellipsoid<double>>(in,out); }
//@ c_KDOP24_CAPSULE what="collide table entry mesh of KDOP24, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP24_CAPSULE(const double*in,double*out){ icol(BV_KDOP24,GEOM_CAPSULE,in,out); } PROBE spec_c_KDOP24_CAPSULE(const double*in,double*out){ c_vs<KDOP<double,24>,Capsule<double>>(in,out); }
//@ c_KDOP24_CONE what="collide table entry mesh of KDOP24, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP24_CONE(const double*in,double*out){ icol(BV_KDOP24,GEOM_CONE,in,out); } PROBE spec_c_KDOP24_CONE(const double*in,double*out){ c_vs<KDOP<double,24>,Cone<double>>(in,out); }
//@ c_KDOP24_CYLINDER what="collide table entry mesh of KDOP24, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP24_CYLINDER(const double*in,double*out){ icol(BV_KDOP24,GEOM_CYLINDER,in,out); } PROBE spec_c_KDOP24_CYLINDER(const double*in,double*out){ c_vs<KDOP<double,24>,Cylinder<double>>(in,out); }
//@ c_KDOP24_CONVEX what="collide table entry mesh of KDOP24, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP24_CONVEX(const double*in,double*out){ icol(BV_KDOP24,GEOM_CONVEX,in,out); } PROBE spec_c_KDOP24_CONVEX(const double*in,double*out){ c_vs<KDOP<double,24>,Convex<double>>(in,out); }
//@ c_KDOP24_PLANE what="collide table entry mesh of KDOP24, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP24_PLANE(const double*in,double*out){ icol(BV_KDOP24,GEOM_PLANE,in,out); } PROBE spec_c_KDOP24_PLANE(const double*in,double*out){ c_vs<KDOP<double,24>,Plane<double>>(in,out); }
//@ c_KDOP24_HALFSPACE what="collide table entry mesh of KDOP24, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP24_HALFSPACE(const double*in,double*out){ icol(BV_KDOP24,GEOM_HALFSPACE,in,out); } PROBE spec_c_KDOP24_HALFSPACE(const double*in,double*out){ c_vs<KDOP<double,24>,Halfspace<double>>(in,out); }
//@ c_KDOP24_KDOP24 what="collide table entry meshes of KDOP24" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP24_KDOP24(const double*in,double*out){ icol(BV_KDOP24,BV_KDOP24,in,out); } PROBE spec_c_KDOP24_KDOP24(const double*in,double*out){ c_vv<KDOP<double,24>>(in,out); }
//@ c_KDOP24_OT what="collide table entry mesh of KDOP24, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_KDOP24_OT(const double*in,double*out){ icol(BV_KDOP24,GEOM_OCTREE,in,out); } PROBE spec_c_KDOP24_OT(const double*in,double*out){ c_vo<KDOP<double,24>>(in,out); }
//@ c_OT_KDOP24 what="collide table entry octree, mesh of KDOP24" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_KDOP24(const double*in,double*out){ icol(GEOM_OCTREE,BV_KDOP24,in,out); } PROBE spec_c_OT_KDOP24(const double*in,double*out){ c_ov<KDOP<double,24>>(in,out); }
//@ c_BOX_OT what="collide table entry Box, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_BOX_OT(const double*in,double*out){ icol(GEOM_BOX,GEOM_OCTREE,in,out); } PROBE spec_c_BOX_OT(const double*in,double*out){ c_so<Box<double>>(in,out); }
//@ c_OT_BOX what="collide table entry octree, Box" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_BOX(const double*in,double*out){ icol(GEOM_OCTREE,GEOM_BOX,in,out); } PROBE spec_c_OT_BOX(const double*in,double*out){ c_os<Box<double>>(in,out); }
//@ c_SPHERE_OT what="collide table entry Sphere, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_SPHERE_OT(const double*in,double*out){ icol(GEOM_SPHERE,GEOM_OCTREE,in,out); } PROBE spec_c_SPHERE_OT(const double*in,double*out){ c_so<Sphere<double>>(in,out); }
//@ c_OT_SPHERE what="collide table entry octree, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_SPHERE(const double*in,double*out){ icol(GEOM_OCTREE,GEOM_SPHERE,in,out); } PROBE spec_c_OT_SPHERE(const double*in,double*out){ c_os<Sphere<double>>(in,out); }
//@ c_ELLIPSOID_OT what="collide table entry Ellipsoid, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_ELLIPSOID_OT(const double*in,double*out){ icol(GEOM_ELLIPSOID,GEOM_OCTREE,in,out); } PROBE spec_c_ELLIPSOID_OT(const double*in,double*out){ c_so<Ellipsoid<double>>(in,out); }
//@ c_OT_ELLIPSOID what="collide table entry octree, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_ELLIPSOID(const double*in,double*out){ icol(GEOM_OCTREE,GEOM_ELLIPSOID,in,out); } PROBE spec_c_OT_ELLIPSOID(const double*in,double*out){ c_os<Ellipsoid<double>>(in,out); }
//@ c_CAPSULE_OT what="collide table entry Capsule, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_CAPSULE_OT(const double*in,double*out){ icol(GEOM_CAPSULE,GEOM_OCTREE,in,out); } PROBE spec_c_CAPSULE_OT(const double*in,double*out){ c_so<Capsule<double>>(in,out); }
//@ c_OT_CAPSULE what="collide table entry octree, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_CAPSULE(const double*in,double*out){ icol(GEOM_OCTREE,GEOM_CAPSULE,in,out); } PROBE spec_c_OT_CAPSULE(const double*in,double*out){ c_os<Capsule<double>>(in,out); }
//@ c_CONE_OT what="collide table entry Cone, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_CONE_OT(const double*in,double*out){ icol(GEOM_CONE,GEOM_OCTREE,in,out); } PROBE spec_c_CONE_OT(const double*in,double*out){ c_so<Cone<double>>(in,out); }
//@ c_OT_CONE what="collide table entry octree, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_CONE(const double*in,double*out){ icol(GEOM_OCTREE,GEOM_CONE,in,out); } PROBE spec_c_OT_CONE(const double*in,double*out){ c_os<Cone<double>>(in,out); }
//@ c_CYLINDER_OT what="collide table entry Cylinder, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_CYLINDER_OT(const double*in,double*out){ icol(GEOM_CYLINDER,GEOM_OCTREE,in,out); } PROBE spec_c_CYLINDER_OT(const double*in,double*out){ c_so<Cylinder<double>>(in,out); }
//@ c_OT_CYLINDER what="collide table entry octree, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_CYLINDER(const double*in,double*out){ icol(GEOM_OCTREE,GEOM_CYLINDER,in,out); } PROBE spec_c_OT_CYLINDER(const double*in,double*out){ c_os<Cylinder<double>>(in,out); }
//@ c_CONVEX_OT what="collide table entry Convex, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_CONVEX_OT(const double*in,double*out){ icol(GEOM_CONVEX,GEOM_OCTREE,in,out); } PROBE spec_c_CONVEX_OT(const double*in,double*out){ c_so<Convex<double>>(in,out); }
//@ c_OT_CONVEX what="collide table entry octree, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_CONVEX(const double*in,double*out){ icol(GEOM_OCTREE,GEOM_CONVEX,in,out); } PROBE spec_c_OT_CONVEX(const double*in,double*out){ c_os<Convex<double>>(in,out); }
//@ c_PLANE_OT what="collide table entry Plane, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_PLANE_OT(const double*in,double*out){ icol(GEOM_PLANE,GEOM_OCTREE,in,out); } PROBE spec_c_PLANE_OT(const double*in,double*out){ c_so<Plane<double>>(in,out); }
//@ c_OT_PLANE what="collide table entry octree, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_PLANE(const double*in,double*out){ icol(GEOM_OCTREE,GEOM_PLANE,in,out); } PROBE spec_c_OT_PLANE(const double*in,double*out){ c_os<Plane<double>>(in,out); }
//@ c_HALFSPACE_OT what="collide table entry Halfspace, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_HALFSPACE_OT(const double*in,double*out){ icol(GEOM_HALFSPACE,GEOM_OCTREE,in,out); } PROBE spec_c_HALFSPACE_OT(const double*in,double*out){ c_so<Halfspace<double>>(in,out); }
//@ c_OT_HALFSPACE what="collide table entry octree, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_HALFSPACE(const double*in,double*out){ icol(GEOM_OCTREE,GEOM_HALFSPACE,in,out); } PROBE spec_c_OT_HALFSPACE(const double*in,double*out){ c_os<Halfspace<double>>(in,out); }
//@ c_OT_OT what="collide table entry octree, octree" nonnull="0,1,2,3,4,5,6" if=CHK:2
PROBE impl_c_OT_OT(const double*in,double*out){ icol(GEOM_OCTREE,GEOM_OCTREE,in,out); } PROBE spec_c_OT_OT(const double*in,double*out){ c_oo(in,out); }
#endif
#if CHK==3
//@ d_BOX_BOX what="distance table entry Box, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_BOX_BOX(const double*in,double*out){ idis(GEOM_BOX,GEOM_BOX,in,out); } PROBE spec_d_BOX_BOX(const double*in,double*out){ d_ss<Box<double>,Box<double>>(in,out); }
//@ d_BOX_SPHERE what="distance table entry Box, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_BOX_SPHERE(const double*in,double*out){ idis(GEOM_BOX,GEOM_SPHERE,in,out); } PROBE spec_d_BOX_SPHERE(const double*in,double*out){ d_ss<Box<double>,Sphere<double>>(in,out); }
//@ d_BOX_ELLIPSOID what="distance table entry Box, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_BOX_ELLIPSOID(const double*in,double*out){ idis(GEOM_BOX,GEOM_ELLIPSOID,in,out); } PROBE spec_d_BOX_ELLIPSOID(const double*in,double*out){ d_ss<Box<double>,Ellipsoid<double>>(in,out); }
//@ d_BOX_CAPSULE what="distance table entry Box, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_BOX_CAPSULE(const double*in,double*out){ idis(GEOM_BOX,GEOM_CAPSULE,in,out); } PROBE spec_d_BOX_CAPSULE(const double*in,double*out){ d_ss<Box<double>,Capsule<double>>(in,out); }
//@ d_BOX_CONE what="distance table entry Box, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_BOX_CONE(const double*in,double*out){ idis(GEOM_BOX,GEOM_CONE,in,out); } PROBE spec_d_BOX_CONE(const double*in,double*out){ d_ss<Box<double>,Cone<double>>(in,out); }
//@ d_BOX_CYLINDER what="distance table entry Box, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_BOX_CYLINDER(const double*in,double*out){ idis(GEOM_BOX,GEOM_CYLINDER,in,out); } PROBE spec_d_BOX_CYLINDER(const double*in,double*out){ d_ss<Box<double>,Cylinder<double>>(in,out); }
//@ d_BOX_CONVEX what="distance table entry Box, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_BOX_CONVEX(const double*in,double*out){ idis(GEOM_BOX,GEOM_CONVEX,in,out); } PROBE spec_d_BOX_CONVEX(const double*in,double*out){ d_ss<Box<double>,Convex<double>>(in,out); }
//@ d_BOX_PLANE what="distance table entry Box, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_BOX_PLANE(const double*in,double*out){ idis(GEOM_BOX,GEOM_PLANE,in,out); } PROBE spec_d_BOX_PLANE(const double*in,double*out){ d_ss<Box<double>,Plane<double>>(in,out); }
//@ d_BOX_HALFSPACE what="distance table entry Box, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_BOX_HALFSPACE(const double*in,double*out){ idis(GEOM_BOX,GEOM_HALFSPACE,in,out); } PROBE spec_d_BOX_HALFSPACE(const double*in,double*out){ d_ss<Box<double>,Halfspace<double>>(in,out); }
//@ d_SPHERE_BOX what="distance table entry Sphere, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_SPHERE_BOX(const double*in,double*out){ idis(GEOM_SPHERE,GEOM_BOX,in,out); } PROBE spec_d_SPHERE_BOX(const double*in,double*out){ d_ss<Sphere<double>,Box<double>>(in,out); }
//@ d_SPHERE_SPHERE what="distance table entry Sphere, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_SPHERE_SPHERE(const double*in,double*out){ idis(GEOM_SPHERE,GEOM_SPHERE,in,out); } PROBE spec_d_SPHERE_SPHERE(const double*in,double*out){ d_ss<Sphere<double>,Sphere<double>>(in,out); }
//@ d_SPHERE_ELLIPSOID what="distance table entry Sphere, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_SPHERE_ELLIPSOID(const double*in,double*out){ idis(GEOM_SPHERE,GEOM_ELLIPSOID,in,out); } PROBE spec_d_SPHERE_ELLIPSOID(const double*in,double*out){ d_ss<Sphere<double>,Ellipsoid<double>>(in,out); }
//@ d_SPHERE_CAPSULE what="distance table entry Sphere, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_SPHERE_CAPSULE(const double*in,double*out){ idis(GEOM_SPHERE,GEOM_CAPSULE,in,out); } PROBE spec_d_SPHERE_CAPSULE(const double*in,double*out){ d_ss<Sphere<double>,Capsule<double>>(in,out); }
//@ d_SPHERE_CONE what="distance table entry Sphere, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_SPHERE_CONE(const double*in,double*out){ idis(GEOM_SPHERE,GEOM_CONE,in,out); } PROBE spec_d_SPHERE_CONE(const double*in,double*out){ d_ss<Sphere<double>,Cone<double>>(in,out); }
//@ d_SPHERE_CYLINDER what="distance table entry Sphere, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_SPHERE_CYLINDER(const double*in,double*out){ idis(GEOM_SPHERE,GEOM_CYLINDER,in,out); } PROBE spec_d_SPHERE_CYLINDER(const double*in,double*out){ d_ss<Sphere<double>,Cylinder<double>>(in,out); }
//@ d_SPHERE_CONVEX what="distance table entry Sphere, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_SPHERE_CONVEX(const double*in,double*out){ idis(GEOM_SPHERE,GEOM_CONVEX,in,out); } PROBE spec_d_SPHERE_CONVEX(const double*in,double*out){ d_ss<Sphere<double>,Convex<double>>(in,out); }
//@ d_SPHERE_PLANE what="distance table entry Sphere, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_SPHERE_PLANE(const double*in,double*out){ idis(GEOM_SPHERE,GEOM_PLANE,in,out); } PROBE spec_d_SPHERE_PLANE(const double*in,double*out){ d_ss<Sphere<double>,Plane<double>>(in,out); }
//@ d_SPHERE_HALFSPACE what="distance table entry Sphere, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_SPHERE_HALFSPACE(const double*in,double*out){ idis(GEOM_SPHERE,GEOM_HALFSPACE,in,out); } PROBE spec_d_SPHERE_HALFSPACE(const double*in,double*out){ d_ss<Sphere<double>,Halfspace<double>>(in,out); }
//@ d_ELLIPSOID_BOX what="distance table entry Ellipsoid, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_ELLIPSOID_BOX(const double*in,double*out){ idis(GEOM_ELLIPSOID,GEOM_BOX,in,out); } PROBE spec_d_ELLIPSOID_BOX(const double*in,double*out){ d_ss<Ellipsoid<double>,Box<double>>(in,out); }
//@ d_ELLIPSOID_SPHERE what="distance table entry Ellipsoid, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_ELLIPSOID_SPHERE(const double*in,double*out){ idis(GEOM_ELLIPSOID,GEOM_SPHERE,in,out); } PROBE spec_d_ELLIPSOID_SPHERE(const double*in,double*out){ d_ss<Ellipsoid<double>,Sphere<double>>(in,out); }
//@ d_ELLIPSOID_ELLIPSOID what="distance table entry Ellipsoid, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_ELLIPSOID_ELLIPSOID(const double*in,double*out){ idis(GEOM_ELLIPSOID,GEOM_ELLIPSOID,in,out); } PROBE spec_d_ELLIPSOID_ELLIPSOID(const double*in,double*out){ d_ss<Ellipsoid<double>,Ellipsoid<double>>(in,out); }
//@ d_ELLIPSOID_CAPSULE what="distance table entry Ellipsoid, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_ELLIPSOID_CAPSULE(const double*in,double*out){ idis(GEOM_ELLIPSOID,GEOM_CAPSULE,in,out); } PROBE spec_d_ELLIPSOID_CAPSULE(const double*in,double*out){ d_ss<Ellipsoid<double>,Capsule<double>>(in,out); }
//@ d_ELLIPSOID_CONE what="distance table entry Ellipsoid, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_ELLIPSOID_CONE(const double*in,double*out){ idis(GEOM_ELLIPSOID,GEOM_CONE,in,out); } PROBE spec_d_ELLIPSOID_CONE(const double*in,double*out){ d_ss<Ellipsoid<double>,Cone<double>>(in,out); }
//@ d_ELLIPSOID_CYLINDER what="distance table entry Ellipsoid, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_ELLIPSOID_CYLINDER(const double*in,double*out){ idis(GEOM_ELLIPSOID,GEOM_CYLINDER,in,out); } PROBE spec_d_ELLIPSOID_CYLINDER(const double*in,double*out){ d_ss<Ellipsoid<double>,Cylinder<double>>(in,out); }
//@ d_ELLIPSOID_CONVEX what="distance table entry Ellipsoid, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_ELLIPSOID_CONVEX(const double*in,double*out){ idis(GEOM_ELLIPSOID,GEOM_CONVEX,in,out); } PROBE spec_d_ELLIPSOID_CONVEX(const double*in,double*out){ d_ss<Ellipsoid<double>,Convex<double>>(in,out); }
//@ d_ELLIPSOID_PLANE what="distance table entry Ellipsoid, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_ELLIPSOID_PLANE(const double*in,double*out){ idis(GEOM_ELLIPSOID,GEOM_PLANE,in,out); } PROBE spec_d_ELLIPSOID_PLANE(const double*in,double*out){ d_ss<Ellipsoid<double>,Plane<double>>(in,out); }
//@ d_ELLIPSOID_HALFSPACE what="distance table entry Ellipsoid, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_ELLIPSOID_HALFSPACE(const double*in,double*out){ idis(GEOM_ELLIPSOID,GEOM_HALFSPACE,in,out); } PROBE spec_d_ELLIPSOID_HALFSPACE(const double*in,double*out){ d_ss<Ellipsoid<double>,Halfspace<double>>(in,out); }
//@ d_CAPSULE_BOX what="distance table entry Capsule, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CAPSULE_BOX(const double*in,double*out){ idis(GEOM_CAPSULE,GEOM_BOX,in,out); } PROBE spec_d_CAPSULE_BOX(const double*in,double*out){ d_ss<Capsule<double>,Box<double>>(in,out); }
//@ d_CAPSULE_SPHERE what="distance table entry Capsule, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CAPSULE_SPHERE(const double*in,double*out){ idis(GEOM_CAPSULE,GEOM_SPHERE,in,out); } PROBE spec_d_CAPSULE_SPHERE(const double*in,double*out){ d_ss<Capsule<double>,Sphere<double>>(in,out); }
//@ d_CAPSULE_ELLIPSOID what="distance table entry Capsule, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CAPSULE_ELLIPSOID(const double*in,double*out){ idis(GEOM_CAPSULE,GEOM_ELLIPSOID,in,out); } PROBE spec_d_CAPSULE_ELLIPSOID(const double*in,double*out){ d_ss<Capsule<double>,Ellipsoid<double>>(in,out); }
//@ d_CAPSULE_CAPSULE what="distance table entry Capsule, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CAPSULE_CAPSULE(const double*in,double*out){ idis(GEOM_CAPSULE,GEOM_CAPSULE,in,out); } PROBE spec_d_CAPSULE_CAPSULE(const double*in,double*out){ d_ss<Capsule<double>,Capsule<double>>(in,out); }
//@ d_CAPSULE_CONE what="distance table entry Capsule, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CAPSULE_CONE(const double*in,double*out){ idis(GEOM_CAPSULE,GEOM_CONE,in,out); } PROBE spec_d_CAPSULE_CONE(const double*in,double*out){ d_ss<Capsule<double>,Cone<double>>(in,out); }
//@ d_CAPSULE_CYLINDER what="distance table entry Capsule, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CAPSULE_CYLINDER(const double*in,double*out){ idis(GEOM_CAPSULE,GEOM_CYLINDER,in,out); } PROBE spec_d_CAPSULE_CYLINDER(const double*in,double*out){ d_ss<Capsule<double>,Cylinder<double>>(in,out); }
//@ d_CAPSULE_CONVEX what="distance table entry Capsule, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CAPSULE_CONVEX(const double*in,double*out){ idis(GEOM_CAPSULE,GEOM_CONVEX,in,out); } PROBE spec_d_CAPSULE_CONVEX(const double*in,double*out){ d_ss<Capsule<double>,Convex<double>>(in,out); }
//@ d_CAPSULE_PLANE what="distance table entry Capsule, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CAPSULE_PLANE(const double*in,double*out){ idis(GEOM_CAPSULE,GEOM_PLANE,in,out); } PROBE spec_d_CAPSULE_PLANE(const double*in,double*out){ d_ss<Capsule<double>,Plane<double>>(in,out); }
//@ d_CAPSULE_HALFSPACE what="distance table entry Capsule, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CAPSULE_HALFSPACE(const double*in,double*out){ idis(GEOM_CAPSULE,GEOM_HALFSPACE,in,out); } PROBE spec_d_CAPSULE_HALFSPACE(const double*in,double*out){ d_ss<Capsule<double>,Halfspace<double>>(in,out); }
//@ d_CONE_BOX what="distance table entry Cone, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONE_BOX(const double*in,double*out){ idis(GEOM_CONE,GEOM_BOX,in,out); } PROBE spec_d_CONE_BOX(const double*in,double*out){ d_ss<Cone<double>,Box<double>>(in,out); }
//@ d_CONE_SPHERE what="distance table entry Cone, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONE_SPHERE(const double*in,double*out){ idis(GEOM_CONE,GEOM_SPHERE,in,out); } PROBE spec_d_CONE_SPHERE(const double*in,double*out){ d_ss<Cone<double>,Sphere<double>>(in,out); }
//@ d_CONE_ELLIPSOID what="distance table entry Cone, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONE_ELLIPSOID(const double*in,double*out){ idis(GEOM_CONE,GEOM_ELLIPSOID,in,out); } PROBE spec_d_CONE_ELLIPSOID(const double*in,double*out){ d_ss<Cone<double>,Ellipsoid<double>>(in,out); }
//@ d_CONE_CAPSULE what="distance table entry Cone, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONE_CAPSULE(const double*in,double*out){ idis(GEOM_CONE,GEOM_CAPSULE,in,out); } PROBE spec_d_CONE_CAPSULE(const double*in,double*out){ d_ss<Cone<double>,Capsule<double>>(in,out); }
//@ d_CONE_CONE what="distance table entry Cone, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONE_CONE(const double*in,double*out){ idis(GEOM_CONE,GEOM_CONE,in,out); } PROBE spec_d_CONE_CONE(const double*in,double*out){ d_ss<Cone<double>,Cone<double>>(in,out); }
//@ d_CONE_CYLINDER what="distance table entry Cone, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONE_CYLINDER(const double*in,double*out){ idis(GEOM_CONE,GEOM_CYLINDER,in,out); } PROBE spec_d_CONE_CYLINDER(const double*in,double*out){ d_ss<Cone<double>,Cylinder<double>>(in,out); }
//@ d_CONE_CONVEX what="distance table entry Cone, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONE_CONVEX(const double*in,double*out){ idis(GEOM_CONE,GEOM_CONVEX,in,out); } PROBE spec_d_CONE_CONVEX(const double*in,double*out){ d_ss<Cone<double>,Convex<double>>(in,out); }
//@ d_CONE_PLANE what="distance table entry Cone, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONE_PLANE(const double*in,double*out){ idis(GEOM_CONE,GEOM_PLANE,in,out); } PROBE spec_d_CONE_PLANE(const double*in,double*out){ d_ss<Cone<double>,Plane<double>>(in,out); }
//@ d_CONE_HALFSPACE what="distance table entry Cone, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONE_HALFSPACE(const double*in,double*out){ idis(GEOM_CONE,GEOM_HALFSPACE,in,out); } PROBE spec_d_CONE_HALFSPACE(const double*in,double*out){ d_ss<Cone<double>,Halfspace<double>>(in,out); }
//@ d_CYLINDER_BOX what="distance table entry Cylinder, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CYLINDER_BOX(const double*in,double*out){ idis(GEOM_CYLINDER,GEOM_BOX,in,out); } PROBE spec_d_CYLINDER_BOX(const double*in,double*out){ d_ss<Cylinder<double>,Box<double>>(in,out); }
//@ d_CYLINDER_SPHERE what="distance table entry Cylinder, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CYLINDER_SPHERE(const double*in,double*out){ idis(GEOM_CYLINDER,GEOM_SPHERE,in,out); } PROBE spec_d_CYLINDER_SPHERE(const double*in,double*out){ d_ss<Cylinder<double>,Sphere<double>>(in,out); }
//@ d_CYLINDER_ELLIPSOID what="distance table entry Cylinder, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CYLINDER_ELLIPSOID(const double*in,double*out){ idis(GEOM_CYLINDER,GEOM_ELLIPSOID,in,out); } PROBE spec_d_CYLINDER_ELLIPSOID(const double*in,double*out){ d_ss<Cylinder<double>,Ellipsoid<double>>(in,out); }
//@ d_CYLINDER_CAPSULE what="distance table entry Cylinder, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CYLINDER_CAPSULE(const double*in,double*out){ idis(GEOM_CYLINDER,GEOM_CAPSULE,in,out); } PROBE spec_d_CYLINDER_CAPSULE(const double*in,double*out){ d_ss<Cylinder<double>,Capsule<double>>(in,out); }
//@ d_CYLINDER_CONE what="distance table entry Cylinder, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CYLINDER_CONE(const double*in,double*out){ idis(GEOM_CYLINDER,GEOM_CONE,in,out); } PROBE spec_d_CYLINDER_CONE(const double*in,double*out){ d_ss<Cylinder<double>,Cone<double>>(in,out); }
//@ d_CYLINDER_CYLINDER what="distance table entry Cylinder, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CYLINDER_CYLINDER(const double*in,double*out){ idis(GEOM_CYLINDER,GEOM_CYLINDER,in,out); } PROBE spec_d_CYLINDER_CYLINDER(const double*in,double*out){ d_ss<Cylinder<double>,Cylinder<double>>(in,out); }
//@ d_CYLINDER_CONVEX what="distance table entry Cylinder, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CYLINDER_CONVEX(const double*in,double*out){ idis(GEOM_CYLINDER,GEOM_CONVEX,in,out); } PROBE spec_d_CYLINDER_CONVEX(const double*in,double*out){ d_ss<Cylinder<double>,Convex<double>>(in,out); }
//@ d_CYLINDER_PLANE what="distance table entry Cylinder, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CYLINDER_PLANE(const double*in,double*out){ idis(GEOM_CYLINDER,GEOM_PLANE,in,out); } PROBE spec_d_CYLINDER_PLANE(const double*in,double*out){ d_ss<Cylinder<double>,Plane<double>>(in,out); }
//@ d_CYLINDER_HALFSPACE what="distance table entry Cylinder, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CYLINDER_HALFSPACE(const double*in,double*out){ idis(GEOM_CYLINDER,GEOM_HALFSPACE,in,out); } PROBE spec_d_CYLINDER_HALFSPACE(const double*in,double*out){ d_ss<Cylinder<double>,Halfspace<double>>(in,out); }
//@ d_CONVEX_BOX what="distance table entry Convex, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONVEX_BOX(const double*in,double*out){ idis(GEOM_CONVEX,GEOM_BOX,in,out); } PROBE spec_d_CONVEX_BOX(const double*in,double*out){ d_ss<Convex<double>,Box<double>>(in,out); }
//@ d_CONVEX_SPHERE what="distance table entry Convex, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONVEX_SPHERE(const double*in,double*out){ idis(GEOM_CONVEX,GEOM_SPHERE,in,out); } PROBE spec_d_CONVEX_SPHERE(const double*in,double*out){ d_ss<Convex<double>,Sphere<double>>(in,out); }
//@ d_CONVEX_ELLIPSOID what="distance table entry Convex, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONVEX_ELLIPSOID(const double*in,double*out){ idis(GEOM_CONVEX,GEOM_ELLIPSOID,in,out); } PROBE spec_d_CONVEX_ELLIPSOID(const double*in,double*out){ d_ss<Convex<double>,Ellipsoid<double>>(in,out); }
//@ d_CONVEX_CAPSULE what="distance table entry Convex, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONVEX_CAPSULE(const double*in,double*out){ idis(GEOM_CONVEX,GEOM_CAPSULE,in,out); } PROBE spec_d_CONVEX_CAPSULE(const double*in,double*out){ d_ss<Convex<double>,Capsule<double>>(in,out); }
//@ d_CONVEX_CONE what="distance table entry Convex, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONVEX_CONE(const double*in,double*out){ idis(GEOM_CONVEX,GEOM_CONE,in,out); } PROBE spec_d_CONVEX_CONE(const double*in,double*out){ d_ss<Convex<double>,Cone<double>>(in,out); }
//@ d_CONVEX_CYLINDER what="distance table entry Convex, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONVEX_CYLINDER(const double*in,double*out){ idis(GEOM_CONVEX,GEOM_CYLINDER,in,out); } PROBE spec_d_CONVEX_CYLINDER(const double*in,double*out){ d_ss<Convex<double>,Cylinder<double>>(in,out); }
//@ d_CONVEX_CONVEX what="distance table entry Convex, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONVEX_CONVEX(const double*in,double*out){ idis(GEOM_CONVEX,GEOM_CONVEX,in,out); } PROBE spec_d_CONVEX_CONVEX(const double*in,double*out){ d_ss<Convex<double>,Convex<double>>(in,out); }
//@ d_CONVEX_PLANE what="distance table entry Convex, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONVEX_PLANE(const double*in,double*out){ idis(GEOM_CONVEX,GEOM_PLANE,in,out); } PROBE spec_d_CONVEX_PLANE(const double*in,double*out){ d_ss<Convex<double>,Plane<double>>(in,out); }
//@ d_CONVEX_HALFSPACE what="distance table entry Convex, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONVEX_HALFSPACE(const double*in,double*out){ idis(GEOM_CONVEX,GEOM_HALFSPACE,in,out); } PROBE spec_d_CONVEX_HALFSPACE(const double*in,double*out){ d_ss<Convex<double>,Halfspace<double>>(in,out); }
//@ d_PLANE_BOX what="distance table entry Plane, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_PLANE_BOX(const double*in,double*out){ idis(GEOM_PLANE,GEOM_BOX,in,out); } PROBE spec_d_PLANE_BOX(const double*in,double*out){ d_ss<Plane<double>,Box<double>>(in,out); }
//@ d_PLANE_SPHERE what="distance table entry Plane, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_PLANE_SPHERE(const double*in,double*out){ idis(GEOM_PLANE,GEOM_SPHERE,in,out); } PROBE spec_d_PLANE_SPHERE(const double*in,double*out){ d_ss<Plane<double>,Sphere<double>>(in,out); }
//@ d_PLANE_ELLIPSOID what="distance table entry Plane, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_PLANE_ELLIPSOID(const double*in,double*out){ idis(GEOM_PLANE,GEOM_ELLIPSOID,in,out); } PROBE spec_d_PLANE_ELLIPSOID(const double*in,double*out){ d_ss<Plane<double>,Ellipsoid<double>>(in,out); }
//@ d_PLANE_CAPSULE what="distance table entry Plane, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_PLANE_CAPSULE(const double*in,double*out){ idis(GEOM_PLANE,GEOM_CAPSULE,in,out); } PROBE spec_d_PLANE_CAPSULE(const double*in,double*out){ d_ss<Plane<double>,Capsule<double>>(in,out); }
//@ d_PLANE_CONE what="distance table entry Plane, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_PLANE_CONE(const double*in,double*out){ idis(GEOM_PLANE,GEOM_CONE,in,out); } PROBE spec_d_PLANE_CONE(const double*in,double*out){ d_ss<Plane<double>,Cone<double>>(in,out); }
//@ d_PLANE_CYLINDER what="distance table entry Plane, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_PLANE_CYLINDER(const double*in,double*out){ idis(GEOM_PLANE,GEOM_CYLINDER,in,out); } PROBE spec_d_PLANE_CYLINDER(const double*in,double*out){ d_ss<Plane<double>,Cylinder<double>>(in,out); }
//@ d_PLANE_CONVEX what="distance table entry Plane, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_PLANE_CONVEX(const double*in,double*out){ idis(GEOM_PLANE,GEOM_CONVEX,in,out); } PROBE spec_d_PLANE_CONVEX(const double*in,double*out){ d_ss<Plane<double>,Convex<double>>(in,out); }
//@ d_PLANE_PLANE what="distance table entry Plane, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_PLANE_PLANE(const double*in,double*out){ idis(GEOM_PLANE,GEOM_PLANE,in,out); } PROBE spec_d_PLANE_PLANE(const double*in,double*out){ d_ss<Plane<double>,Plane<double>>(in,out); }
//@ d_PLANE_HALFSPACE what="distance table entry Plane, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_PLANE_HALFSPACE(const double*in,double*out){ idis(GEOM_PLANE,GEOM_HALFSPACE,in,out); } PROBE spec_d_PLANE_HALFSPACE(const double*in,double*out){ d_ss<Plane<double>,Halfspace<double>>(in,out); }
//@ d_HALFSPACE_BOX what="distance table entry Halfspace, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_HALFSPACE_BOX(const double*in,double*out){ idis(GEOM_HALFSPACE,GEOM_BOX,in,out); } PROBE spec_d_HALFSPACE_BOX(const double*in,double*out){ d_ss<Halfspace<double>,Box<double>>(in,out); }
//@ d_HALFSPACE_SPHERE what="distance table entry Halfspace, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_HALFSPACE_SPHERE(const double*in,double*out){ idis(GEOM_HALFSPACE,GEOM_SPHERE,in,out); } PROBE spec_d_HALFSPACE_SPHERE(const double*in,double*out){ d_ss<Halfspace<double>,Sphere<double>>(in,out); }
//@ d_HALFSPACE_ELLIPSOID what="distance table entry Halfspace, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_HALFSPACE_ELLIPSOID(const double*in,double*out){ idis(GEOM_HALFSPACE,GEOM_ELLIPSOID,in,out); } PROBE spec_d_HALFSPACE_ELLIPSOID(const double*in,double*out){ d_ss<Halfspace<double>,Ellipsoid<double>>(in,out); }
//@ d_HALFSPACE_CAPSULE what="distance table entry Halfspace, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_HALFSPACE_CAPSULE(const double*in,double*out){ idis(GEOM_HALFSPACE,GEOM_CAPSULE,in,out); } PROBE spec_d_HALFSPACE_CAPSULE(const double*in,double*out){ d_ss<Halfspace<double>,Capsule<double>>(in,out); }
//@ d_HALFSPACE_CONE what="distance table entry Halfspace, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_HALFSPACE_CONE(const double*in,double*out){ idis(GEOM_HALFSPACE,GEOM_CONE,in,out); } PROBE spec_d_HALFSPACE_CONE(const double*in,double*out){ d_ss<Halfspace<double>,Cone<double>>(in,out); }
//@ d_HALFSPACE_CYLINDER what="distance table entry Halfspace, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_HALFSPACE_CYLINDER(const double*in,double*out){ idis(GEOM_HALFSPACE,GEOM_CYLINDER,in,out); } PROBE spec_d_HALFSPACE_CYLINDER(const double*in,double*out){ d_ss<Halfspace<double>,Cylinder<double>>(in,out); }
//@ d_HALFSPACE_CONVEX what="distance table entry Halfspace, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_HALFSPACE_CONVEX(const double*in,double*out){ idis(GEOM_HALFSPACE,GEOM_CONVEX,in,out); } PROBE spec_d_HALFSPACE_CONVEX(const double*in,double*out){ d_ss<Halfspace<double>,Convex<double>>(in,out); }
//@ d_HALFSPACE_PLANE what="distance table entry Halfspace, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_HALFSPACE_PLANE(const double*in,double*out){ idis(GEOM_HALFSPACE,GEOM_PLANE,in,out); } PROBE spec_d_HALFSPACE_PLANE(const double*in,double*out){ d_ss<Halfspace<double>,Plane<double>>(in,out); }
//@ d_HALFSPACE_HALFSPACE what="distance table entry Halfspace, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_HALFSPACE_HALFSPACE(const double*in,double*out){ idis(GEOM_HALFSPACE,GEOM_HALFSPACE,in,out); } PROBE spec_d_HALFSPACE_HALFSPACE(const double*in,double*out){ d_ss<Halfspace<double>,Halfspace<double>>(in,out); }
//@ d_AABB_AABB what="distance table entry meshes of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_AABB_AABB(const double*in,double*out){ idis(BV_AABB,BV_AABB,in,out); } PROBE spec_d_AABB_AABB(const double*in,double*out){ d_vv<AABB<double>>(in,out); }
//@ d_AABB_OT what="distance table entry mesh of AABB, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_AABB_OT(const double*in,double*out){ idis(BV_AABB,GEOM_OCTREE,in,out); } PROBE spec_d_AABB_OT(const double*in,double*out){ d_vo<AABB<double>>(in,out); }
//@ d_OT_AABB what="distance table entry octree, mesh of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_AABB(const double*in,double*out){ idis(GEOM_OCTREE,BV_AABB,in,out); } PROBE spec_d_OT_AABB(const double*in,double*out){ d_ov<AABB<double>>(in,out); }
//@ d_OBB_OT what="distance table entry mesh of OBB, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OBB_OT(const double*in,double*out){ idis(BV_OBB,GEOM_OCTREE,in,out); } PROBE spec_d_OBB_OT(const double*in,double*out){ d_vo<OBB<double>>(in,out); }
//@ d_OT_OBB what="distance table entry octree, mesh of OBB" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_OBB(const double*in,double*out){ idis(GEOM_OCTREE,BV_OBB,in,out); } PROBE spec_d_OT_OBB(const double*in,double*out){ d_ov<OBB<double>>(in,out); }
//@ d_RSS_BOX what="distance table entry mesh of RSS, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_RSS_BOX(const double*in,double*out){ idis(BV_RSS,GEOM_BOX,in,out); } PROBE spec_d_RSS_BOX(const double*in,double*out){ d_vs<RSS<double>,Box<double>>(in,out); }
//@ d_RSS_SPHERE what="distance table entry mesh of RSS, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_RSS_SPHERE(const double*in,double*out){ idis(BV_RSS,GEOM_SPHERE,in,out); } PROBE spec_d_RSS_SPHERE(const double*in,double*out){ d_vs<RSS<double>,Sphere<double>>(in,out); }
//@ d_RSS_ELLIPSOID what="distance table entry mesh of RSS, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_RSS_ELLIPSOID(const double*in,double*out){ idis(BV_RSS,GEOM_ELLIPSOID,in,out); } PROBE spec_d_RSS_ELLIPSOID(const double*in,double*out){ d_vs<RSS<double>,Ellipsoid<double>>(in,out); }
//@ d_RSS_CAPSULE what="distance table entry mesh of RSS, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_RSS_CAPSULE(const double*in,double*out){ idis(BV_RSS,GEOM_CAPSULE,in,out); } PROBE spec_d_RSS_CAPSULE(const double*in,double*out){ d_vs<RSS<double>,Capsule<double>>(in,out); }
//@ d_RSS_CONE what="distance table entry mesh of RSS, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_RSS_CONE(const double*in,double*out){ idis(BV_RSS,GEOM_CONE,in,out); } PROBE spec_d_RSS_CONE(const double*in,double*out){ d_vs<RSS<double>,Cone<double>>(in,out); }
//@ d_RSS_CYLINDER what="distance table entry mesh of RSS, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_RSS_CYLINDER(const double*in,double*out){ idis(BV_RSS,GEOM_CYLINDER,in,out); } PROBE spec_d_RSS_CYLINDER(const double*in,double*out){ d_vs<RSS<double>,Cylinder<double>>(in,out); }
//@ d_RSS_CONVEX what="distance table entry mesh of RSS, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_RSS_CONVEX(const double*in,double*out){ idis(BV_RSS,GEOM_CONVEX,in,out); } PROBE spec_d_RSS_CONVEX(const double*in,double*out){ d_vs<RSS<double>,Convex<double>>(in,out); }
//@ d_RSS_PLANE what="distance table entry mesh of RSS, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_RSS_PLANE(const double*in,double*out){ idis(BV_RSS,GEOM_PLANE,in,out); } PROBE spec_d_RSS_PLANE(const double*in,double*out){ d_vs<RSS<double>,Plane<double>>(in,out); }
//@ d_RSS_HALFSPACE what="distance table entry mesh of RSS, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_RSS_HALFSPACE(const double*in,double*out){ idis(BV_RSS,GEOM_HALFSPACE,in,out); } PROBE spec_d_RSS_HALFSPACE(const double*in,double*out){ d_vs<RSS<double>,Halfspace<double>>(in,out); }
//@ d_RSS_RSS what="distance table entry meshes of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_RSS_RSS(const double*in,double*out){ idis(BV_RSS,BV_RSS,in,out); } PROBE spec_d_RSS_RSS(const double*in,double*out){ d_vv<RSS<double>>(in,out); }
//@ d_RSS_OT what="distance table entry mesh of RSS, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_RSS_OT(const double*in,double*out){ idis(BV_RSS,GEOM_OCTREE,in,out); } PROBE spec_d_RSS_OT(const double*in,double*out){ d_vo<RSS<double>>(in,out); }
//@ d_OT_RSS what="distance table entry octree, mesh of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_RSS(const double*in,double*out){ idis(GEOM_OCTREE,BV_RSS,in,out); } PROBE spec_d_OT_RSS(const double*in,double*out){ d_ov<RSS<double>>(in,out); }
//@ d_kIOS_BOX what="distance table entry mesh of kIOS, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_kIOS_BOX(const double*in,double*out){ idis(BV_kIOS,GEOM_BOX,in,out); } PROBE spec_d_kIOS_BOX(const double*in,double*out){ d_vs<kIOS<double>,Box<double>>(in,out); }
//@ d_kIOS_SPHERE what="distance table entry mesh of kIOS, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_kIOS_SPHERE(const double*in,double*out){ idis(BV_kIOS,GEOM_SPHERE,in,out); } PROBE spec_d_kIOS_SPHERE(const double*in,double*out){ d_vs<kIOS<double>,Sphere<double>>(in,out); }
//@ d_kIOS_ELLIPSOID what="distance table entry mesh of kIOS, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_kIOS_ELLIPSOID(const double*in,double*out){ idis(BV_kIOS,GEOM_ELLIPSOID,in,out); } PROBE spec_d_kIOS_ELLIPSOID(const double*in,double*out){ d_vs<kIOS<double>,Ellipsoid<double>>(in,out); }
//@ d_kIOS_CAPSULE what="distance table entry mesh of kIOS, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_kIOS_CAPSULE(const double*in,double*out){ idis(BV_kIOS,GEOM_CAPSULE,in,out); } PROBE spec_d_kIOS_CAPSULE(const double*in,double*out){ d_vs<kIOS<double>,Capsule<double>>(in,out); }
//@ d_kIOS_CONE what="distance table entry mesh of kIOS, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_kIOS_CONE(const double*in,double*out){ idis(BV_kIOS,GEOM_CONE,in,out); } PROBE spec_d_kIOS_CONE(const double*in,double*out){ d_vs<kIOS<double>,Cone<double>>(in,out); }
//@ d_kIOS_CYLINDER what="distance table entry mesh of kIOS, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_kIOS_CYLINDER(const double*in,double*out){ idis(BV_kIOS,GEOM_CYLINDER,in,out); } PROBE spec_d_kIOS_CYLINDER(const double*in,double*out){ d_vs<kIOS<double>,Cylinder<double>>(in,out); }
//@ d_kIOS_CONVEX what="distance table entry mesh of kIOS, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_kIOS_CONVEX(const double*in,double*out){ idis(BV_kIOS,GEOM_CONVEX,in,out); } PROBE spec_d_kIOS_CONVEX(const double*in,double*out){ d_vs<kIOS<double>,Convex<double>>(in,out); }
//@ d_kIOS_PLANE what="distance table entry mesh of kIOS, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_kIOS_PLANE(const double*in,double*out){ idis(BV_kIOS,GEOM_PLANE,in,out); } PROBE spec_d_kIOS_PLANE(const double*in,double*out){ d_vs<kIOS<double>,Plane<double>>(in,out); }
//@ d_kIOS_HALFSPACE what="distance table entry mesh of kIOS, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_kIOS_HALFSPACE(const double*in,double*out){ idis(BV_kIOS,GEOM_HALFSPACE,in,out); } PROBE spec_d_kIOS_HALFSPACE(const double*in,double*out){ d_vs<kIOS<double>,Halfspace<double>>(in,out); }
//@ d_kIOS_kIOS what="distance table entry meshes of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_kIOS_kIOS(const double*in,double*out){ idis(BV_kIOS,BV_kIOS,in,out); } PROBE spec_d_kIOS_kIOS(const double*in,double*out){ d_vv<kIOS<double>>(in,out); }
//@ d_kIOS_OT what="distance table entry mesh of kIOS, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_kIOS_OT(const double*in,double*out){ idis(BV_kIOS,GEOM_OCTREE,in,out); } PROBE spec_d_kIOS_OT(const double*in,double*out){ d_vo<kIOS<double>>(in,out); }
//@ d_OT_kIOS what="distance table entry octree, mesh of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_kIOS(const double*in,double*out){ idis(GEOM_OCTREE,BV_kIOS,in,out); } PROBE spec_d_OT_kIOS(const double*in,double*out){ d_ov<kIOS<double>>(in,out); }
//@ d_OBBRSS_BOX what="distance table entry mesh of OBBRSS, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OBBRSS_BOX(const double*in,double*out){ idis(BV_OBBRSS,GEOM_BOX,in,out); } PROBE spec_d_OBBRSS_BOX(const double*in,double*out){ d_vs<OBBRSS<double>,Box<double>>(in,out); }
//@ d_OBBRSS_SPHERE what="distance table entry mesh of OBBRSS, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OBBRSS_SPHERE(const double*in,double*out){ idis(BV_OBBRSS,GEOM_SPHERE,in,out); } PROBE spec_d_OBBRSS_SPHERE(const double*in,double*out){ d_vs<OBBRSS<double>,Sphere<double>>(in,out); }
//@ d_OBBRSS_ELLIPSOID what="distance table entry mesh of OBBRSS, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OBBRSS_ELLIPSOID(const double*in,double*out){ idis(BV_OBBRSS,GEOM_ELLIPSOID,in,out); } PROBE spec_d_OBBRSS_ELLIPSOID(const double*in,double*out){ d_vs<OBBRSS<double>,Ellipsoid<double>>(in,out); }
//@ d_OBBRSS_CAPSULE what="distance table entry mesh of OBBRSS, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OBBRSS_CAPSULE(const double*in,double*out){ idis(BV_OBBRSS,GEOM_CAPSULE,in,out); } PROBE spec_d_OBBRSS_CAPSULE(const double*in,double*out){ d_vs<OBBRSS<double>,Capsule<double>>(in,out); }
//@ d_OBBRSS_CONE what="distance table entry mesh of OBBRSS, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OBBRSS_CONE(const double*in,double*out){ idis(BV_OBBRSS,GEOM_CONE,in,out); } PROBE spec_d_OBBRSS_CONE(const double*in,double*out){ d_vs<OBBRSS<double>,Cone<double>>(in,out); }
//@ d_OBBRSS_CYLINDER what="distance table entry mesh of OBBRSS, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OBBRSS_CYLINDER(const double*in,double*out){ idis(BV_OBBRSS,GEOM_CYLINDER,in,out); } PROBE spec_d_OBBRSS_CYLINDER(const double*in,double*out){ d_vs<OBBRSS<double>,Cylinder<double>>(in,out); }
//@ d_OBBRSS_CONVEX what="distance table entry mesh of OBBRSS, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OBBRSS_CONVEX(const double*in,double*out){ idis(BV_OBBRSS,GEOM_CONVEX,in,out); } PROBE spec_d_OBBRSS_CONVEX(const double*in,double*out){ d_vs<OBBRSS<double>,Convex<double>>(in,out); }
//@ d_OBBRSS_PLANE what="distance table entry mesh of OBBRSS, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OBBRSS_PLANE(const double*in,double*out){ idis(BV_OBBRSS,GEOM_PLANE,in,out); } PROBE spec_d_OBBRSS_PLANE(const double*in,double*out){ d_vs<OBBRSS<double>,Plane<double>>(in,out); }
//@ d_OBBRSS_HALFSPACE what="distance table entry mesh of OBBRSS, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OBBRSS_HALFSPACE(const double*in,double*out){ idis(BV_OBBRSS,GEOM_HALFSPACE,in,out); } PROBE spec_d_OBBRSS_HALFSPACE(const double*in,double*out){ d_vs<OBBRSS<double>,Halfspace<double>>(in,out); }
//@ d_OBBRSS_OBBRSS what="distance table entry meshes of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OBBRSS_OBBRSS(const double*in,double*out){ idis(BV_OBBRSS,BV_OBBRSS,in,out); } PROBE spec_d_OBBRSS_OBBRSS(const double*in,double*out){ d_vv<OBBRSS<double>>(in,out); }
//@ d_OBBRSS_OT what="distance table entry mesh of OBBRSS, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OBBRSS_OT(const double*in,double*out){ idis(BV_OBBRSS,GEOM_OCTREE,in,out); } PROBE spec_d_OBBRSS_OT(const double*in,double*out){ d_vo<OBBRSS<double>>(in,out); }
//@ d_OT_OBBRSS what="distance table entry octree, mesh of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_OBBRSS(const double*in,double*out){ idis(GEOM_OCTREE,BV_OBBRSS,in,out); } PROBE spec_d_OT_OBBRSS(const double*in,double*out){ d_ov<OBBRSS<double>>(in,out); }
//@ d_KDOP16_OT what="distance table entry mesh of KDOP16, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_KDOP16_OT(const double*in,double*out){ idis(BV_KDOP16,GEOM_OCTREE,in,out); } PROBE spec_d_KDOP16_OT(const double*in,double*out){ d_vo<KDOP<double,16>>(in,out); }
//@ d_OT_KDOP16 what="distance table entry octree, mesh of KDOP16" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_KDOP16(const double*in,double*out){ idis(GEOM_OCTREE,BV_KDOP16,in,out); } PROBE spec_d_OT_KDOP16(const double*in,double*out){ d_ov<KDOP<double,16>>(in,out); }
//@ d_KDOP18_OT what="distance table entry mesh of KDOP18, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_KDOP18_OT(const double*in,double*out){ idis(BV_KDOP18,GEOM_OCTREE,in,out); } PROBE spec_d_KDOP18_OT(const double*in,double*out){ d_vo<KDOP<double,18>>(in,out); }
//@ d_OT_KDOP18 what="distance table entry octree, mesh of KDOP18" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_KDOP18(const double*in,double*out){ idis(GEOM_OCTREE,BV_KDOP18,in,out); } PROBE spec_d_OT_KDOP18(const double*in,double*out){ d_ov<KDOP<double,18>>(in,out); }
//@ d_KDOP24_OT what="distance table entry mesh of KDOP24, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_KDOP24_OT(const double*in,double*out){ idis(BV_KDOP24,GEOM_OCTREE,in,out); } PROBE spec_d_KDOP24_OT(const double*in,double*out){ d_vo<KDOP<double,24>>(in,out); }
//@ d_OT_KDOP24 what="distance table entry octree, mesh of KDOP24" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_KDOP24(const double*in,double*out){ idis(GEOM_OCTREE,BV_KDOP24,in,out); } PROBE spec_d_OT_KDOP24(const double*in,double*out){ d_ov<KDOP<double,24>>(in,out); }
//@ d_BOX_OT what="distance table entry Box, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_BOX_OT(const double*in,double*out){ idis(GEOM_BOX,GEOM_OCTREE,in,out); } PROBE spec_d_BOX_OT(const double*in,double*out){ d_so<Box<double>>(in,out); }
//@ d_OT_BOX what="distance table entry octree, Box" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_BOX(const double*in,double*out){ idis(GEOM_OCTREE,GEOM_BOX,in,out); } PROBE spec_d_OT_BOX(const double*in,double*out){ d_os<Box<double>>(in,out); }
//@ d_SPHERE_OT what="distance table entry Sphere, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_SPHERE_OT(const double*in,double*out){ idis(GEOM_SPHERE,GEOM_OCTREE,in,out); } PROBE spec_d_SPHERE_OT(const double*in,double*out){ d_so<Sphere<double>>(in,out); }
//@ d_OT_SPHERE what="distance table entry octree, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_SPHERE(const double*in,double*out){ idis(GEOM_OCTREE,GEOM_SPHERE,in,out); } PROBE spec_d_OT_SPHERE(const double*in,double*out){ d_os<Sphere<double>>(in,out); }
//@ d_ELLIPSOID_OT what="distance table entry Ellipsoid, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_ELLIPSOID_OT(const double*in,double*out){ idis(GEOM_ELLIPSOID,GEOM_OCTREE,in,out); } PROBE spec_d_ELLIPSOID_OT(const double*in,double*out){ d_so<Ellipsoid<double>>(in,out); }
//@ d_OT_ELLIPSOID what="distance table entry octree, Ellipsoid" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_ELLIPSOID(const double*in,double*out){ idis(GEOM_OCTREE,GEOM_ELLIPSOID,in,out); } PROBE spec_d_OT_ELLIPSOID(const double*in,double*out){ d_os<Ellipsoid<double>>(in,out); }
//@ d_CAPSULE_OT what="distance table entry Capsule, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CAPSULE_OT(const double*in,double*out){ idis(GEOM_CAPSULE,GEOM_OCTREE,in,out); } PROBE spec_d_CAPSULE_OT(const double*in,double*out){ d_so<Capsule<double>>(in,out); }
//@ d_OT_CAPSULE what="distance table entry octree, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_CAPSULE(const double*in,double*out){ idis(GEOM_OCTREE,GEOM_CAPSULE,in,out); } PROBE spec_d_OT_CAPSULE(const double*in,double*out){ d_os<Capsule<double>>(in,out); }
//@ d_CONE_OT what="distance table entry Cone, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONE_OT(const double*in,double*out){ idis(GEOM_CONE,GEOM_OCTREE,in,out); } PROBE spec_d_CONE_OT(const double*in,double*out){ d_so<Cone<double>>(in,out); }
//@ d_OT_CONE what="distance table entry octree, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_CONE(const double*in,double*out){ idis(GEOM_OCTREE,GEOM_CONE,in,out); } PROBE spec_d_OT_CONE(const double*in,double*out){ d_os<Cone<double>>(in,out); }
//@ d_CYLINDER_OT what="distance table entry Cylinder, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CYLINDER_OT(const double*in,double*out){ idis(GEOM_CYLINDER,GEOM_OCTREE,in,out); } PROBE spec_d_CYLINDER_OT(const double*in,double*out){ d_so<Cylinder<double>>(in,out); }
//@ d_OT_CYLINDER what="distance table entry octree, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_CYLINDER(const double*in,double*out){ idis(GEOM_OCTREE,GEOM_CYLINDER,in,out); } PROBE spec_d_OT_CYLINDER(const double*in,double*out){ d_os<Cylinder<double>>(in,out); }
//@ d_CONVEX_OT what="distance table entry Convex, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_CONVEX_OT(const double*in,double*out){ idis(GEOM_CONVEX,GEOM_OCTREE,in,out); } PROBE spec_d_CONVEX_OT(const double*in,double*out){ d_so<Convex<double>>(in,out); }
//@ d_OT_CONVEX what="distance table entry octree, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_CONVEX(const double*in,double*out){ idis(GEOM_OCTREE,GEOM_CONVEX,in,out); } PROBE spec_d_OT_CONVEX(const double*in,double*out){ d_os<Convex<double>>(in,out); }
//@ d_PLANE_OT what="distance table entry Plane, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_PLANE_OT(const double*in,double*out){ idis(GEOM_PLANE,GEOM_OCTREE,in,out); } PROBE spec_d_PLANE_OT(const double*in,double*out){ d_so<Plane<double>>(in,out); }
//@ d_OT_PLANE what="distance table entry octree, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_PLANE(const double*in,double*out){ idis(GEOM_OCTREE,GEOM_PLANE,in,out); } PROBE spec_d_OT_PLANE(const double*in,double*out){ d_os<Plane<double>>(in,out); }
//@ d_HALFSPACE_OT what="distance table entry Halfspace, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_HALFSPACE_OT(const double*in,double*out){ idis(GEOM_HALFSPACE,GEOM_OCTREE,in,out); } PROBE spec_d_HALFSPACE_OT(const double*in,double*out){ d_so<Halfspace<double>>(in,out); }
//@ d_OT_HALFSPACE what="distance table entry octree, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_HALFSPACE(const double*in,double*out){ idis(GEOM_OCTREE,GEOM_HALFSPACE,in,out); } PROBE spec_d_OT_HALFSPACE(const double*in,double*out){ d_os<Halfspace<double>>(in,out); }
//@ d_OT_OT what="distance table entry octree, octree" nonnull="0,1,2,3,4,5,6" if=CHK:3
PROBE impl_d_OT_OT(const double*in,double*out){ idis(GEOM_OCTREE,GEOM_OCTREE,in,out); } PROBE spec_d_OT_OT(const double*in,double*out){ d_oo(in,out); }
#endif
#if CHK==4
typedef ContinuousCollisionRequest<double> CCR; typedef ContinuousCollisionResult<double> CCS;
#define M1 PTR(const MB,2)
#define M2 PTR(const MB,3)
#define CS (*PTR(CCS,6))
static inline void ica(int i,int j,const double*in,double*out){ ConservativeAdvancementFunctionMatrix<NS> m; auto f=m.conservative_advancement_matrix[i][j]; if(!f) { out[0]=-1; return; } out[0]=f(O1,M1,O2,M2,SV,*PTR(const CCR,5),CS); out[1]=CS.is_collide; out[2]=CS.time_of_contact; }
#define FIN CS.is_collide=r; CS.time_of_contact=t; out[0]=t; out[1]=r; out[2]=t;
template<class A,class B> static inline void a_ss(const double*in,double*out){ CR q; CRes s; double t; bool r=conservativeAdvancement((const A&)*O1,M1,(const B&)*O2,M2,SV,q,s,t); FIN }
template<class V> static inline void a_vv(const double*in,double*out){ CR q; CRes s; double t; bool r=conservativeAdvancement((const BVHModel<V>&)*O1,M1,(const BVHModel<V>&)*O2,M2,q,s,t); FIN }
template<class V,class B> static inline void a_vs(const double*in,double*out){ CR q; CRes s; double t; bool r=conservativeAdvancement<V,B,NS>((const BVHModel<V>&)*O1,M1,(const B&)*O2,M2,SV,q,s,t); FIN }
template<class A,class V> static inline void a_sv(const double*in,double*out){ CR q; CRes s; double t; bool r=conservativeAdvancement<A,V,NS>((const A&)*O1,M1,(const BVHModel<V>&)*O2,M2,SV,q,s,t); FIN }
//@ a_BOX_BOX what="conservative advancement table entry Box, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_BOX(const double*in,double*out){ ica(GEOM_BOX,GEOM_BOX,in,out); } PROBE spec_a_BOX_BOX(const double*in,double*out){ a_ss<Box<double>,Box<double>>(in,out); }
//@ a_BOX_SPHERE what="conservative advancement table entry Box, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_SPHERE(const double*in,double*out){ ica(GEOM_BOX,GEOM_SPHERE,in,out); } PROBE spec_a_BOX_SPHERE(const double*in,double*out){ a_ss<Box<double>,Sphere<double>>(in,out); }
//@ a_BOX_CAPSULE what="conservative advancement table entry Box, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_CAPSULE(const double*in,double*out){ ica(GEOM_BOX,GEOM_CAPSULE,in,out); } PROBE spec_a_BOX_CAPSULE(const double*in,double*out){ a_ss<Box<double>,Capsule<double>>(in,out); }
//@ a_BOX_CONE what="conservative advancement table entry Box, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_CONE(const double*in,double*out){ ica(GEOM_BOX,GEOM_CONE,in,out); } PROBE spec_a_BOX_CONE(const double*in,double*out){ a_ss<Box<double>,Cone<double>>(in,out); }
//@ a_BOX_CYLINDER what="conservative advancement table entry Box, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_CYLINDER(const double*in,double*out){ ica(GEOM_BOX,GEOM_CYLINDER,in,out); } PROBE spec_a_BOX_CYLINDER(const double*in,double*out){ a_ss<Box<double>,Cylinder<double>>(in,out); }
//@ a_BOX_CONVEX what="conservative advancement table entry Box, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_CONVEX(const double*in,double*out){ ica(GEOM_BOX,GEOM_CONVEX,in,out); } PROBE spec_a_BOX_CONVEX(const double*in,double*out){ a_ss<Box<double>,Convex<double>>(in,out); }
//@ a_BOX_PLANE what="conservative advancement table entry Box, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_PLANE(const double*in,double*out){ ica(GEOM_BOX,GEOM_PLANE,in,out); } PROBE spec_a_BOX_PLANE(const double*in,double*out){ a_ss<Box<double>,Plane<double>>(in,out); }
//@ a_BOX_HALFSPACE what="conservative advancement table entry Box, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_HALFSPACE(const double*in,double*out){ ica(GEOM_BOX,GEOM_HALFSPACE,in,out); } PROBE spec_a_BOX_HALFSPACE(const double*in,double*out){ a_ss<Box<double>,Halfspace<double>>(in,out); }
//@ a_SPHERE_BOX what="conservative advancement table entry Sphere, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_BOX(const double*in,double*out){ ica(GEOM_SPHERE,GEOM_BOX,in,out); } PROBE spec_a_SPHERE_BOX(const double*in,double*out){ a_ss<Sphere<double>,Box<double>>(in,out); }
//@ a_SPHERE_SPHERE what="conservative advancement table entry Sphere, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_SPHERE(const double*in,double*out){ ica(GEOM_SPHERE,GEOM_SPHERE,in,out); } PROBE spec_a_SPHERE_SPHERE(const double*in,double*out){ a_ss<Sphere<double>,Sphere<double>>(in,out); }
//@ a_SPHERE_CAPSULE what="conservative advancement table entry Sphere, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_CAPSULE(const double*in,double*out){ ica(GEOM_SPHERE,GEOM_CAPSULE,in,out); } PROBE spec_a_SPHERE_CAPSULE(const double*in,double*out){ a_ss<Sphere<double>,Capsule<double>>(in,out); }
//@ a_SPHERE_CONE what="conservative advancement table entry Sphere, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_CONE(const double*in,double*out){ ica(GEOM_SPHERE,GEOM_CONE,in,out); } PROBE spec_a_SPHERE_CONE(const double*in,double*out){ a_ss<Sphere<double>,Cone<double>>(in,out); }
//@ a_SPHERE_CYLINDER what="conservative advancement table entry Sphere, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_CYLINDER(const double*in,double*out){ ica(GEOM_SPHERE,GEOM_CYLINDER,in,out); } PROBE spec_a_SPHERE_CYLINDER(const double*in,double*out){ a_ss<Sphere<double>,Cylinder<double>>(in,out); }
//@ a_SPHERE_CONVEX what="conservative advancement table entry Sphere, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_CONVEX(const double*in,double*out){ ica(GEOM_SPHERE,GEOM_CONVEX,in,out); } PROBE spec_a_SPHERE_CONVEX(const double*in,double*out){ a_ss<Sphere<double>,Convex<double>>(in,out); }
//@ a_SPHERE_PLANE what="conservative advancement table entry Sphere, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_PLANE(const double*in,double*out){ ica(GEOM_SPHERE,GEOM_PLANE,in,out); } PROBE spec_a_SPHERE_PLANE(const double*in,double*out){ a_ss<Sphere<double>,Plane<double>>(in,out); }
//@ a_SPHERE_HALFSPACE what="conservative advancement table entry Sphere, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_HALFSPACE(const double*in,double*out){ ica(GEOM_SPHERE,GEOM_HALFSPACE,in,out); } PROBE spec_a_SPHERE_HALFSPACE(const double*in,double*out){ a_ss<Sphere<double>,Halfspace<double>>(in,out); }
//@ a_CAPSULE_BOX what="conservative advancement table entry Capsule, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_BOX(const double*in,double*out){ ica(GEOM_CAPSULE,GEOM_BOX,in,out); } PROBE spec_a_CAPSULE_BOX(const double*in,double*out){ a_ss<Capsule<double>,Box<double>>(in,out); }
//@ a_CAPSULE_SPHERE what="conservative advancement table entry Capsule, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_SPHERE(const double*in,double*out){ ica(GEOM_CAPSULE,GEOM_SPHERE,in,out); } PROBE spec_a_CAPSULE_SPHERE(const double*in,double*out){ a_ss<Capsule<double>,Sphere<double>>(in,out); }
//@ a_CAPSULE_CAPSULE what="conservative advancement table entry Capsule, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_CAPSULE(const double*in,double*out){ ica(GEOM_CAPSULE,GEOM_CAPSULE,in,out); } PROBE spec_a_CAPSULE_CAPSULE(const double*in,double*out){ a_ss<Capsule<double>,Capsule<double>>(in,out); }
//@ a_CAPSULE_CONE what="conservative advancement table entry Capsule, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_CONE(const double*in,double*out){ ica(GEOM_CAPSULE,GEOM_CONE,in,out); } PROBE spec_a_CAPSULE_CONE(const double*in,double*out){ a_ss<Capsule<double>,Cone<double>>(in,out); }
//@ a_CAPSULE_CYLINDER what="conservative advancement table entry Capsule, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_CYLINDER(const double*in,double*out){ ica(GEOM_CAPSULE,GEOM_CYLINDER,in,out); } PROBE spec_a_CAPSULE_CYLINDER(const double*in,double*out){ a_ss<Capsule<double>,Cylinder<double>>(in,out); }
//@ a_CAPSULE_CONVEX what="conservative advancement table entry Capsule, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_CONVEX(const double*in,double*out){ ica(GEOM_CAPSULE,GEOM_CONVEX,in,out); } PROBE spec_a_CAPSULE_CONVEX(const double*in,double*out){ a_ss<Capsule<double>,Convex<double>>(in,out); }
//@ a_CAPSULE_PLANE what="conservative advancement table entry Capsule, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_PLANE(const double*in,double*out){ ica(GEOM_CAPSULE,GEOM_PLANE,in,out); } PROBE spec_a_CAPSULE_PLANE(const double*in,double*out){ a_ss<Capsule<double>,Plane<double>>(in,out); }
//@ a_CAPSULE_HALFSPACE what="conservative advancement table entry Capsule, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_HALFSPACE(const double*in,double*out){ ica(GEOM_CAPSULE,GEOM_HALFSPACE,in,out); } PROBE spec_a_CAPSULE_HALFSPACE(const double*in,double*out){ a_ss<Capsule<double>,Halfspace<double>>(in,out); }
//@ a_CONE_BOX what="conservative advancement table entry Cone, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_BOX(const double*in,double*out){ ica(GEOM_CONE,GEOM_BOX,in,out); } PROBE spec_a_CONE_BOX(const double*in,double*out){ a_ss<Cone<double>,Box<double>>(in,out); }
//@ a_CONE_SPHERE what="conservative advancement table entry Cone, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_SPHERE(const double*in,double*out){ ica(GEOM_CONE,GEOM_SPHERE,in,out); } PROBE spec_a_CONE_SPHERE(const double*in,double*out){ a_ss<Cone<double>,Sphere<double>>(in,out); }
//@ a_CONE_CAPSULE what="conservative advancement table entry Cone, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_CAPSULE(const double*in,double*out){ ica(GEOM_CONE,GEOM_CAPSULE,in,out); } PROBE spec_a_CONE_CAPSULE(const double*in,double*out){ a_ss<Cone<double>,Capsule<double>>(in,out); }
//@ a_CONE_CONE what="conservative advancement table entry Cone, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_CONE(const double*in,double*out){ ica(GEOM_CONE,GEOM_CONE,in,out); } PROBE spec_a_CONE_CONE(const double*in,double*out){ a_ss<Cone<double>,Cone<double>>(in,out); }
//@ a_CONE_CYLINDER what="conservative advancement table entry Cone, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_CYLINDER(const double*in,double*out){ ica(GEOM_CONE,GEOM_CYLINDER,in,out); } PROBE spec_a_CONE_CYLINDER(const double*in,double*out){ a_ss<Cone<double>,Cylinder<double>>(in,out); }
//@ a_CONE_CONVEX what="conservative advancement table entry Cone, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_CONVEX(const double*in,double*out){ ica(GEOM_CONE,GEOM_CONVEX,in,out); } PROBE spec_a_CONE_CONVEX(const double*in,double*out){ a_ss<Cone<double>,Convex<double>>(in,out); }
//@ a_CONE_PLANE what="conservative advancement table entry Cone, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_PLANE(const double*in,double*out){ ica(GEOM_CONE,GEOM_PLANE,in,out); } PROBE spec_a_CONE_PLANE(const double*in,double*out){ a_ss<Cone<double>,Plane<double>>(in,out); }
//@ a_CONE_HALFSPACE what="conservative advancement table entry Cone, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_HALFSPACE(const double*in,double*out){ ica(GEOM_CONE,GEOM_HALFSPACE,in,out); } PROBE spec_a_CONE_HALFSPACE(const double*in,double*out){ a_ss<Cone<double>,Halfspace<double>>(in,out); }
//@ a_CYLINDER_BOX what="conservative advancement table entry Cylinder, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_BOX(const double*in,double*out){ ica(GEOM_CYLINDER,GEOM_BOX,in,out); } PROBE spec_a_CYLINDER_BOX(const double*in,double*out){ a_ss<Cylinder<double>,Box<double>>(in,out); }
//@ a_CYLINDER_SPHERE what="conservative advancement table entry Cylinder, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_SPHERE(const double*in,double*out){ ica(GEOM_CYLINDER,GEOM_SPHERE,in,out); } PROBE spec_a_CYLINDER_SPHERE(const double*in,double*out){ a_ss<Cylinder<double>,Sphere<double>>(in,out); }
//@ a_CYLINDER_CAPSULE what="conservative advancement table entry Cylinder, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_CAPSULE(const double*in,double*out){ ica(GEOM_CYLINDER,GEOM_CAPSULE,in,out); } PROBE spec_a_CYLINDER_CAPSULE(const double*in,double*out){ a_ss<Cylinder<double>,Capsule<double>>(in,out); }
//@ a_CYLINDER_CONE what="conservative advancement table entry Cylinder, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_CONE(const double*in,double*out){ ica(GEOM_CYLINDER,GEOM_CONE,in,out); } PROBE spec_a_CYLINDER_CONE(const double*in,double*out){ a_ss<Cylinder<double>,Cone<double>>(in,out); }
//@ a_CYLINDER_CYLINDER what="conservative advancement table entry Cylinder, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_CYLINDER(const double*in,double*out){ ica(GEOM_CYLINDER,GEOM_CYLINDER,in,out); } PROBE spec_a_CYLINDER_CYLINDER(const double*in,double*out){ a_ss<Cylinder<double>,Cylinder<double>>(in,out); }
//@ a_CYLINDER_CONVEX what="conservative advancement table entry Cylinder, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_CONVEX(const double*in,double*out){ ica(GEOM_CYLINDER,GEOM_CONVEX,in,out); } PROBE spec_a_CYLINDER_CONVEX(const double*in,double*out){ a_ss<Cylinder<double>,Convex<double>>(in,out); }
//@ a_CYLINDER_PLANE what="conservative advancement table entry Cylinder, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_PLANE(const double*in,double*out){ ica(GEOM_CYLINDER,GEOM_PLANE,in,out); } PROBE spec_a_CYLINDER_PLANE(const double*in,double*out){ a_ss<Cylinder<double>,Plane<double>>(in,out); }
//@ a_CYLINDER_HALFSPACE what="conservative advancement table entry Cylinder, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_HALFSPACE(const double*in,double*out){ ica(GEOM_CYLINDER,GEOM_HALFSPACE,in,out); } PROBE spec_a_CYLINDER_HALFSPACE(const double*in,double*out){ a_ss<Cylinder<double>,Halfspace<double>>(in,out); }
//@ a_CONVEX_BOX what="conservative advancement table entry Convex, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_BOX(const double*in,double*out){ ica(GEOM_CONVEX,GEOM_BOX,in,out); } PROBE spec_a_CONVEX_BOX(const double*in,double*out){ a_ss<Convex<double>,Box<double>>(in,out); }
//@ a_CONVEX_SPHERE what="conservative advancement table entry Convex, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_SPHERE(const double*in,double*out){ ica(GEOM_CONVEX,GEOM_SPHERE,in,out); } PROBE spec_a_CONVEX_SPHERE(const double*in,double*out){ a_ss<Convex<double>,Sphere<double>>(in,out); }
//@ a_CONVEX_CAPSULE what="conservative advancement table entry Convex, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_CAPSULE(const double*in,double*out){ ica(GEOM_CONVEX,GEOM_CAPSULE,in,out); } PROBE spec_a_CONVEX_CAPSULE(const double*in,double*out){ a_ss<Convex<double>,Capsule<double>>(in,out); }
//@ a_CONVEX_CONE what="conservative advancement table entry Convex, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_CONE(const double*in,double*out){ ica(GEOM_CONVEX,GEOM_CONE,in,out); } PROBE spec_a_CONVEX_CONE(const double*in,double*out){ a_ss<Convex<double>,Cone<double>>(in,out); }
//@ a_CONVEX_CYLINDER what="conservative advancement table entry Convex, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_CYLINDER(const double*in,double*out){ ica(GEOM_CONVEX,GEOM_CYLINDER,in,out); } PROBE spec_a_CONVEX_CYLINDER(const double*in,double*out){ a_ss<Convex<double>,Cylinder<double>>(in,out); }
//@ a_CONVEX_CONVEX what="conservative advancement table entry Convex, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_CONVEX(const double*in,double*out){ ica(GEOM_CONVEX,GEOM_CONVEX,in,out); } PROBE spec_a_CONVEX_CONVEX(const double*in,double*out){ a_ss<Convex<double>,Convex<double>>(in,out); }
//@ a_CONVEX_PLANE what="conservative advancement table entry Convex, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_PLANE(const double*in,double*out){ ica(GEOM_CONVEX,GEOM_PLANE,in,out); } PROBE spec_a_CONVEX_PLANE(const double*in,double*out){ a_ss<Convex<double>,Plane<double>>(in,out); }
//@ a_CONVEX_HALFSPACE what="conservative advancement table entry Convex, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_HALFSPACE(const double*in,double*out){ ica(GEOM_CONVEX,GEOM_HALFSPACE,in,out); } PROBE spec_a_CONVEX_HALFSPACE(const double*in,double*out){ a_ss<Convex<double>,Halfspace<double>>(in,out); }
//@ a_PLANE_BOX what="conservative advancement table entry Plane, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_BOX(const double*in,double*out){ ica(GEOM_PLANE,GEOM_BOX,in,out); } PROBE spec_a_PLANE_BOX(const double*in,double*out){ a_ss<Plane<double>,Box<double>>(in,out); }
//@ a_PLANE_SPHERE what="conservative advancement table entry Plane, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_SPHERE(const double*in,double*out){ ica(GEOM_PLANE,GEOM_SPHERE,in,out); } PROBE spec_a_PLANE_SPHERE(const double*in,double*out){ a_ss<Plane<double>,Sphere<double>>(in,out); }
//@ a_PLANE_CAPSULE what="conservative advancement table entry Plane, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_CAPSULE(const double*in,double*out){ ica(GEOM_PLANE,GEOM_CAPSULE,in,out); } PROBE spec_a_PLANE_CAPSULE(const double*in,double*out){ a_ss<Plane<double>,Capsule<double>>(in,out); }
//@ a_PLANE_CONE what="conservative advancement table entry Plane, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_CONE(const double*in,double*out){ ica(GEOM_PLANE,GEOM_CONE,in,out); } PROBE spec_a_PLANE_CONE(const double*in,double*out){ a_ss<Plane<double>,Cone<double>>(in,out); }
//@ a_PLANE_CYLINDER what="conservative advancement table entry Plane, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_CYLINDER(const double*in,double*out){ ica(GEOM_PLANE,GEOM_CYLINDER,in,out); } PROBE spec_a_PLANE_CYLINDER(const double*in,double*out){ a_ss<Plane<double>,Cylinder<double>>(in,out); }
//@ a_PLANE_CONVEX what="conservative advancement table entry Plane, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_CONVEX(const double*in,double*out){ ica(GEOM_PLANE,GEOM_CONVEX,in,out); } PROBE spec_a_PLANE_CONVEX(const double*in,double*out){ a_ss<Plane<double>,Convex<double>>(in,out); }
//@ a_PLANE_PLANE what="conservative advancement table entry Plane, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_PLANE(const double*in,double*out){ ica(GEOM_PLANE,GEOM_PLANE,in,out); } PROBE spec_a_PLANE_PLANE(const double*in,double*out){ a_ss<Plane<double>,Plane<double>>(in,out); }
//@ a_PLANE_HALFSPACE what="conservative advancement table entry Plane, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_HALFSPACE(const double*in,double*out){ ica(GEOM_PLANE,GEOM_HALFSPACE,in,out); } PROBE spec_a_PLANE_HALFSPACE(const double*in,double*out){ a_ss<Plane<double>,Halfspace<double>>(in,out); }
//@ a_HALFSPACE_BOX what="conservative advancement table entry Halfspace, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_BOX(const double*in,double*out){ ica(GEOM_HALFSPACE,GEOM_BOX,in,out); } PROBE spec_a_HALFSPACE_BOX(const double*in,double*out){ a_ss<Halfspace<double>,Box<double>>(in,out); }
//@ a_HALFSPACE_SPHERE what="conservative advancement table entry Halfspace, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_SPHERE(const double*in,double*out){ ica(GEOM_HALFSPACE,GEOM_SPHERE,in,out); } PROBE spec_a_HALFSPACE_SPHERE(const double*in,double*out){ a_ss<Halfspace<double>,Sphere<double>>(in,out); }
//@ a_HALFSPACE_CAPSULE what="conservative advancement table entry Halfspace, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_CAPSULE(const double*in,double*out){ ica(GEOM_HALFSPACE,GEOM_CAPSULE,in,out); } PROBE spec_a_HALFSPACE_CAPSULE(const double*in,double*out){ a_ss<Halfspace<double>,Capsule<double>>(in,out); }
//@ a_HALFSPACE_CONE what="conservative advancement table entry Halfspace, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_CONE(const double*in,double*out){ ica(GEOM_HALFSPACE,GEOM_CONE,in,out); } PROBE spec_a_HALFSPACE_CONE(const double*in,double*out){ a_ss<Halfspace<double>,Cone<double>>(in,out); }
//@ a_HALFSPACE_CYLINDER what="conservative advancement table entry Halfspace, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_CYLINDER(const double*in,double*out){ ica(GEOM_HALFSPACE,GEOM_CYLINDER,in,out); } PROBE spec_a_HALFSPACE_CYLINDER(const double*in,double*out){ a_ss<Halfspace<double>,Cylinder<double>>(in,out); }
//@ a_HALFSPACE_CONVEX what="conservative advancement table entry Halfspace, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_CONVEX(const double*in,double*out){ ica(GEOM_HALFSPACE,GEOM_CONVEX,in,out); } PROBE spec_a_HALFSPACE_CONVEX(const double*in,double*out){ a_ss<Halfspace<double>,Convex<double>>(in,out); }
//@ a_HALFSPACE_PLANE what="conservative advancement table entry Halfspace, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_PLANE(const double*in,double*out){ ica(GEOM_HALFSPACE,GEOM_PLANE,in,out); } PROBE spec_a_HALFSPACE_PLANE(const double*in,double*out){ a_ss<Halfspace<double>,Plane<double>>(in,out); }
//@ a_HALFSPACE_HALFSPACE what="conservative advancement table entry Halfspace, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_HALFSPACE(const double*in,double*out){ ica(GEOM_HALFSPACE,GEOM_HALFSPACE,in,out); } PROBE spec_a_HALFSPACE_HALFSPACE(const double*in,double*out){ a_ss<Halfspace<double>,Halfspace<double>>(in,out); }
//@ a_AABB_BOX what="conservative advancement table entry mesh of AABB, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_AABB_BOX(const double*in,double*out){ ica(BV_AABB,GEOM_BOX,in,out); } PROBE spec_a_AABB_BOX(const double*in,double*out){ a_vs<AABB<double>,Box<double>>(in,out); }
//@ a_BOX_AABB what="conservative advancement table entry Box, mesh of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_AABB(const double*in,double*out){ ica(GEOM_BOX,BV_AABB,in,out); } PROBE spec_a_BOX_AABB(const double*in,double*out){ a_sv<Box<double>,AABB<double>>(in,out); }
//@ a_AABB_SPHERE what="conservative advancement table entry mesh of AABB, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_AABB_SPHERE(const double*in,double*out){ ica(BV_AABB,GEOM_SPHERE,in,out); } PROBE spec_a_AABB_SPHERE(const double*in,double*out){ a_vs<AABB<double>,Sphere<double>>(in,out); }
//@ a_SPHERE_AABB what="conservative advancement table entry Sphere, mesh of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_AABB(const double*in,double*out){ ica(GEOM_SPHERE,BV_AABB,in,out); } PROBE spec_a_SPHERE_AABB(const double*in,double*out){ a_sv<Sphere<double>,AABB<double>>(in,out); }
//@ a_AABB_CAPSULE what="conservative advancement table entry mesh of AABB, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_AABB_CAPSULE(const double*in,double*out){ ica(BV_AABB,GEOM_CAPSULE,in,out); } PROBE spec_a_AABB_CAPSULE(const double*in,double*out){ a_vs<AABB<double>,Capsule<double>>(in,out); }
//@ a_CAPSULE_AABB what="conservative advancement table entry Capsule, mesh of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_AABB(const double*in,double*out){ ica(GEOM_CAPSULE,BV_AABB,in,out); } PROBE spec_a_CAPSULE_AABB(const double*in,double*out){ a_sv<Capsule<double>,AABB<double>>(in,out); }
//@ a_AABB_CONE what="conservative advancement table entry mesh of AABB, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_AABB_CONE(const double*in,double*out){ ica(BV_AABB,GEOM_CONE,in,out); } PROBE spec_a_AABB_CONE(const double*in,double*out){ a_vs<AABB<double>,Cone<double>>(in,out); }
//@ a_CONE_AABB what="conservative advancement table entry Cone, mesh of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_AABB(const double*in,double*out){ ica(GEOM_CONE,BV_AABB,in,out); } PROBE spec_a_CONE_AABB(const double*in,double*out){ a_sv<Cone<double>,AABB<double>>(in,out); }
//@ a_AABB_CYLINDER what="conservative advancement table entry mesh of AABB, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_AABB_CYLINDER(const double*in,double*out){ ica(BV_AABB,GEOM_CYLINDER,in,out); } PROBE spec_a_AABB_CYLINDER(const double*in,double*out){ a_vs<AABB<double>,Cylinder<double>>(in,out); }
//@ a_CYLINDER_AABB what="conservative advancement table entry Cylinder, mesh of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_AABB(const double*in,double*out){ ica(GEOM_CYLINDER,BV_AABB,in,out); } PROBE spec_a_CYLINDER_AABB(const double*in,double*out){ a_sv<Cylinder<double>,AABB<double>>(in,out); }
//@ a_AABB_CONVEX what="conservative advancement table entry mesh of AABB, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_AABB_CONVEX(const double*in,double*out){ ica(BV_AABB,GEOM_CONVEX,in,out); } PROBE spec_a_AABB_CONVEX(const double*in,double*out){ a_vs<AABB<double>,Convex<double>>(in,out); }
//@ a_CONVEX_AABB what="conservative advancement table entry Convex, mesh of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_AABB(const double*in,double*out){ ica(GEOM_CONVEX,BV_AABB,in,out); } PROBE spec_a_CONVEX_AABB(const double*in,double*out){ a_sv<Convex<double>,AABB<double>>(in,out); }
//@ a_AABB_PLANE what="conservative advancement table entry mesh of AABB, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_AABB_PLANE(const double*in,double*out){ ica(BV_AABB,GEOM_PLANE,in,out); } PROBE spec_a_AABB_PLANE(const double*in,double*out){ a_vs<AABB<double>,Plane<double>>(in,out); }
//@ a_PLANE_AABB what="conservative advancement table entry Plane, mesh of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_AABB(const double*in,double*out){ ica(GEOM_PLANE,BV_AABB,in,out); } PROBE spec_a_PLANE_AABB(const double*in,double*out){ a_sv<Plane<double>,AABB<double>>(in,out); }
//@ a_AABB_HALFSPACE what="conservative advancement table entry mesh of AABB, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_AABB_HALFSPACE(const double*in,double*out){ ica(BV_AABB,GEOM_HALFSPACE,in,out); } PROBE spec_a_AABB_HALFSPACE(const double*in,double*out){ a_vs<AABB<double>,Halfspace<double>>(in,out); }
//@ a_HALFSPACE_AABB what="conservative advancement table entry Halfspace, mesh of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_AABB(const double*in,double*out){ ica(GEOM_HALFSPACE,BV_AABB,in,out); } PROBE spec_a_HALFSPACE_AABB(const double*in,double*out){ a_sv<Halfspace<double>,AABB<double>>(in,out); }
//@ a_AABB_AABB what="conservative advancement table entry meshes of AABB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_AABB_AABB(const double*in,double*out){ ica(BV_AABB,BV_AABB,in,out); } PROBE spec_a_AABB_AABB(const double*in,double*out){ a_vv<AABB<double>>(in,out); }
//@ a_OBB_BOX what="conservative advancement table entry mesh of OBB, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBB_BOX(const double*in,double*out){ ica(BV_OBB,GEOM_BOX,in,out); } PROBE spec_a_OBB_BOX(const double*in,double*out){ a_vs<OBB<double>,Box<double>>(in,out); }
//@ a_BOX_OBB what="conservative advancement table entry Box, mesh of OBB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_OBB(const double*in,double*out){ ica(GEOM_BOX,BV_OBB,in,out); } PROBE spec_a_BOX_OBB(const double*in,double*out){ a_sv<Box<double>,OBB<double>>(in,out); }
//@ a_OBB_SPHERE what="conservative advancement table entry mesh of OBB, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBB_SPHERE(const double*in,double*out){ ica(BV_OBB,GEOM_SPHERE,in,out); } PROBE spec_a_OBB_SPHERE(const double*in,double*out){ a_vs<OBB<double>,Sphere<double>>(in,out); }
//@ a_SPHERE_OBB what="conservative advancement table entry Sphere, mesh of OBB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_OBB(const double*in,double*out){ ica(GEOM_SPHERE,BV_OBB,in,out); } PROBE spec_a_SPHERE_OBB(const double*in,double*out){ a_sv<Sphere<double>,OBB<double>>(in,out); }
//@ a_OBB_CAPSULE what="conservative advancement table entry mesh of OBB, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBB_CAPSULE(const double*in,double*out){ ica(BV_OBB,GEOM_CAPSULE,in,out); } PROBE spec_a_OBB_CAPSULE(const double*in,double*out){ a_vs<OBB<double>,Capsule<double>>(in,out); }
//@ a_CAPSULE_OBB what="conservative advancement table entry Capsule, mesh of OBB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_OBB(const double*in,double*out){ ica(GEOM_CAPSULE,BV_OBB,in,out); } PROBE spec_a_CAPSULE_OBB(const double*in,double*out){ a_sv<Capsule<double>,OBB<double>>(in,out); }
//@ a_OBB_CONE what="conservative advancement table entry mesh of OBB, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBB_CONE(const double*in,double*out){ ica(BV_OBB,GEOM_CONE,in,out); } PROBE spec_a_OBB_CONE(const double*in,double*out){ a_vs<OBB<double>,Cone<double>>(in,out); }
//@ a_CONE_OBB what="conservative advancement table entry Cone, mesh of OBB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_OBB(const double*in,double*out){ ica(GEOM_CONE,BV_OBB,in,out); } PROBE spec_a_CONE_OBB(const double*in,double*out){ a_sv<Cone<double>,OBB<double>>(in,out); }
//@ a_OBB_CYLINDER what="conservative advancement table entry mesh of OBB, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBB_CYLINDER(const double*in,double*out){ ica(BV_OBB,GEOM_CYLINDER,in,out); } PROBE spec_a_OBB_CYLINDER(const double*in,double*out){ a_vs<OBB<double>,Cylinder<double>>(in,out); }
//@ a_CYLINDER_OBB what="conservative advancement table entry Cylinder, mesh of OBB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_OBB(const double*in,double*out){ ica(GEOM_CYLINDER,BV_OBB,in,out); } PROBE spec_a_CYLINDER_OBB(const double*in,double*out){ a_sv<Cylinder<double>,OBB<double>>(in,out); }
//@ a_OBB_CONVEX what="conservative advancement table entry mesh of OBB, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBB_CONVEX(const double*in,double*out){ ica(BV_OBB,GEOM_CONVEX,in,out); } PROBE spec_a_OBB_CONVEX(const double*in,double*out){ a_vs<OBB<double>,Convex<double>>(in,out); }
//@ a_CONVEX_OBB what="conservative advancement table entry Convex, mesh of OBB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_OBB(const double*in,double*out){ ica(GEOM_CONVEX,BV_OBB,in,out); } PROBE spec_a_CONVEX_OBB(const double*in,double*out){ a_sv<Convex<double>,OBB<double>>(in,out); }
//@ a_OBB_PLANE what="conservative advancement table entry mesh of OBB, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBB_PLANE(const double*in,double*out){ ica(BV_OBB,GEOM_PLANE,in,out); } PROBE spec_a_OBB_PLANE(const double*in,double*out){ a_vs<OBB<double>,Plane<double>>(in,out); }
//@ a_PLANE_OBB what="conservative advancement table entry Plane, mesh of OBB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_OBB(const double*in,double*out){ ica(GEOM_PLANE,BV_OBB,in,out); } PROBE spec_a_PLANE_OBB(const double*in,double*out){ a_sv<Plane<double>,OBB<double>>(in,out); }
//@ a_OBB_HALFSPACE what="conservative advancement table entry mesh of OBB, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBB_HALFSPACE(const double*in,double*out){ ica(BV_OBB,GEOM_HALFSPACE,in,out); } PROBE spec_a_OBB_HALFSPACE(const double*in,double*out){ a_vs<OBB<double>,Halfspace<double>>(in,out); }
//@ a_HALFSPACE_OBB what="conservative advancement table entry Halfspace, mesh of OBB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_OBB(const double*in,double*out){ ica(GEOM_HALFSPACE,BV_OBB,in,out); } PROBE spec_a_HALFSPACE_OBB(const double*in,double*out){ a_sv<Halfspace<double>,OBB<double>>(in,out); }
//@ a_OBB_OBB what="conservative advancement table entry meshes of OBB" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBB_OBB(const double*in,double*out){ ica(BV_OBB,BV_OBB,in,out); } PROBE spec_a_OBB_OBB(const double*in,double*out){ a_vv<OBB<double>>(in,out); }
//@ a_RSS_BOX what="conservative advancement table entry mesh of RSS, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_RSS_BOX(const double*in,double*out){ ica(BV_RSS,GEOM_BOX,in,out); } PROBE spec_a_RSS_BOX(const double*in,double*out){ a_vs<RSS<double>,Box<double>>(in,out); }
//@ a_BOX_RSS what="conservative advancement table entry Box, mesh of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_RSS(const double*in,double*out){ ica(GEOM_BOX,BV_RSS,in,out); } PROBE spec_a_BOX_RSS(const double*in,double*out){ a_sv<Box<double>,RSS<double>>(in,out); }
//@ a_RSS_SPHERE what="conservative advancement table entry mesh of RSS, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_RSS_SPHERE(const double*in,double*out){ ica(BV_RSS,GEOM_SPHERE,in,out); } PROBE spec_a_RSS_SPHERE(const double*in,double*out){ a_vs<RSS<double>,Sphere<double>>(in,out); }
//@ a_SPHERE_RSS what="conservative advancement table entry Sphere, mesh of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_RSS(const double*in,double*out){ ica(GEOM_SPHERE,BV_RSS,in,out); } PROBE spec_a_SPHERE_RSS(const double*in,double*out){ a_sv<Sphere<double>,RSS<double>>(in,out); }
//@ a_RSS_CAPSULE what="conservative advancement table entry mesh of RSS, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_RSS_CAPSULE(const double*in,double*out){ ica(BV_RSS,GEOM_CAPSULE,in,out); } PROBE spec_a_RSS_CAPSULE(const double*in,double*out){ a_vs<RSS<double>,Capsule<double>>(in,out); }
//@ a_CAPSULE_RSS what="conservative advancement table entry Capsule, mesh of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_RSS(const double*in,double*out){ ica(GEOM_CAPSULE,BV_RSS,in,out); } PROBE spec_a_CAPSULE_RSS(const double*in,double*out){ a_sv<Capsule<double>,RSS<double>>(in,out); }
//@ a_RSS_CONE what="conservative advancement table entry mesh of RSS, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_RSS_CONE(const double*in,double*out){ ica(BV_RSS,GEOM_CONE,in,out); } PROBE spec_a_RSS_CONE(const double*in,double*out){ a_vs<RSS<double>,Cone<double>>(in,out); }
//@ a_CONE_RSS what="conservative advancement table entry Cone, mesh of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_RSS(const double*in,double*out){ ica(GEOM_CONE,BV_RSS,in,out); } PROBE spec_a_CONE_RSS(const double*in,double*out){ a_sv<Cone<double>,RSS<double>>(in,out); }
//@ a_RSS_CYLINDER what="conservative advancement table entry mesh of RSS, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_RSS_CYLINDER(const double*in,double*out){ ica(BV_RSS,GEOM_CYLINDER,in,out); } PROBE spec_a_RSS_CYLINDER(const double*in,double*out){ a_vs<RSS<double>,Cylinder<double>>(in,out); }
//@ a_CYLINDER_RSS what="conservative advancement table entry Cylinder, mesh of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_RSS(const double*in,double*out){ ica(GEOM_CYLINDER,BV_RSS,in,out); } PROBE spec_a_CYLINDER_RSS(const double*in,double*out){ a_sv<Cylinder<double>,RSS<double>>(in,out); }
//@ a_RSS_CONVEX what="conservative advancement table entry mesh of RSS, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_RSS_CONVEX(const double*in,double*out){ ica(BV_RSS,GEOM_CONVEX,in,out); } PROBE spec_a_RSS_CONVEX(const double*in,double*out){ a_vs<RSS<double>,Convex<double>>(in,out); }
//@ a_CONVEX_RSS what="conservative advancement table entry Convex, mesh of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_RSS(const double*in,double*out){ ica(GEOM_CONVEX,BV_RSS,in,out); } PROBE spec_a_CONVEX_RSS(const double*in,double*out){ a_sv<Convex<double>,RSS<double>>(in,out); }
//@ a_RSS_PLANE what="conservative advancement table entry mesh of RSS, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_RSS_PLANE(const double*in,double*out){ ica(BV_RSS,GEOM_PLANE,in,out); } PROBE spec_a_RSS_PLANE(const double*in,double*out){ a_vs<RSS<double>,Plane<double>>(in,out); }
//@ a_PLANE_RSS what="conservative advancement table entry Plane, mesh of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_RSS(const double*in,double*out){ ica(GEOM_PLANE,BV_RSS,in,out); } PROBE spec_a_PLANE_RSS(const double*in,double*out){ a_sv<Plane<double>,RSS<double>>(in,out); }
//@ a_RSS_HALFSPACE what="conservative advancement table entry mesh of RSS, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_RSS_HALFSPACE(const double*in,double*out){ ica(BV_RSS,GEOM_HALFSPACE,in,out); } PROBE spec_a_RSS_HALFSPACE(const double*in,double*out){ a_vs<RSS<double>,Halfspace<double>>(in,out); }
//@ a_HALFSPACE_RSS what="conservative advancement table entry Halfspace, mesh of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_RSS(const double*in,double*out){ ica(GEOM_HALFSPACE,BV_RSS,in,out); } PROBE spec_a_HALFSPACE_RSS(const double*in,double*out){ a_sv<Halfspace<double>,RSS<double>>(in,out); }
//@ a_RSS_RSS what="conservative advancement table entry meshes of RSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_RSS_RSS(const double*in,double*out){ ica(BV_RSS,BV_RSS,in,out); } PROBE spec_a_RSS_RSS(const double*in,double*out){ a_vv<RSS<double>>(in,out); }
//@ a_kIOS_BOX what="conservative advancement table entry mesh of kIOS, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_kIOS_BOX(const double*in,double*out){ ica(BV_kIOS,GEOM_BOX,in,out); } PROBE spec_a_kIOS_BOX(const double*in,double*out){ a_vs<kIOS<double>,Box<double>>(in,out); }
//@ a_BOX_kIOS what="conservative advancement table entry Box, mesh of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_kIOS(const double*in,double*out){ ica(GEOM_BOX,BV_kIOS,in,out); } PROBE spec_a_BOX_kIOS(const double*in,double*out){ a_sv<Box<double>,kIOS<double>>(in,out); }
//@ a_kIOS_SPHERE what="conservative advancement table entry mesh of kIOS, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_kIOS_SPHERE(const double*in,double*out){ ica(BV_kIOS,GEOM_SPHERE,in,out); } PROBE spec_a_kIOS_SPHERE(const double*in,double*out){ a_vs<kIOS<double>,Sphere<double>>(in,out); }
//@ a_SPHERE_kIOS what="conservative advancement table entry Sphere, mesh of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_kIOS(const double*in,double*out){ ica(GEOM_SPHERE,BV_kIOS,in,out); } PROBE spec_a_SPHERE_kIOS(const double*in,double*out){ a_sv<Sphere<double>,kIOS<double>>(in,out); }
//@ a_kIOS_CAPSULE what="conservative advancement table entry mesh of kIOS, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_kIOS_CAPSULE(const double*in,double*out){ ica(BV_kIOS,GEOM_CAPSULE,in,out); } PROBE spec_a_kIOS_CAPSULE(const double*in,double*out){ a_vs<kIOS<double>,Capsule<double>>(in,out); }
//@ a_CAPSULE_kIOS what="conservative advancement table entry Capsule, mesh of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_kIOS(const double*in,double*out){ ica(GEOM_CAPSULE,BV_kIOS,in,out); } PROBE spec_a_CAPSULE_kIOS(const double*in,double*out){ a_sv<Capsule<double>,kIOS<double>>(in,out); }
//@ a_kIOS_CONE what="conservative advancement table entry mesh of kIOS, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_kIOS_CONE(const double*in,double*out){ ica(BV_kIOS,GEOM_CONE,in,out); } PROBE spec_a_kIOS_CONE(const double*in,double*out){ a_vs<kIOS<double>,Cone<double>>(in,out); }
//@ a_CONE_kIOS what="conservative advancement table entry Cone, mesh of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_kIOS(const double*in,double*out){ ica(GEOM_CONE,BV_kIOS,in,out); } PROBE spec_a_CONE_kIOS(const double*in,double*out){ a_sv<Cone<double>,kIOS<double>>(in,out); }
//@ a_kIOS_CYLINDER what="conservative advancement table entry mesh of kIOS, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_kIOS_CYLINDER(const double*in,double*out){ ica(BV_kIOS,GEOM_CYLINDER,in,out); } PROBE spec_a_kIOS_CYLINDER(const double*in,double*out){ a_vs<kIOS<double>,Cylinder<double>>(in,out); }
//@ a_CYLINDER_kIOS what="conservative advancement table entry Cylinder, mesh of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_kIOS(const double*in,double*out){ ica(GEOM_CYLINDER,BV_kIOS,in,out); } PROBE spec_a_CYLINDER_kIOS(const double*in,double*out){ a_sv<Cylinder<double>,kIOS<double>>(in,out); }
//@ a_kIOS_CONVEX what="conservative advancement table entry mesh of kIOS, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_kIOS_CONVEX(const double*in,double*out){ ica(BV_kIOS,GEOM_CONVEX,in,out); } PROBE spec_a_kIOS_CONVEX(const double*in,double*out){ a_vs<kIOS<double>,Convex<double>>(in,out); }
//@ a_CONVEX_kIOS what="conservative advancement table entry Convex, mesh of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_kIOS(const double*in,double*out){ ica(GEOM_CONVEX,BV_kIOS,in,out); } PROBE spec_a_CONVEX_kIOS(const double*in,double*out){ a_sv<Convex<double>,kIOS<double>>(in,out); }
//@ a_kIOS_PLANE what="conservative advancement table entry mesh of kIOS, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_kIOS_PLANE(const double*in,double*out){ ica(BV_kIOS,GEOM_PLANE,in,out); } PROBE spec_a_kIOS_PLANE(const double*in,double*out){ a_vs<kIOS<double>,Plane<double>>(in,out); }
//@ a_PLANE_kIOS what="conservative advancement table entry Plane, mesh of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_kIOS(const double*in,double*out){ ica(GEOM_PLANE,BV_kIOS,in,out); } PROBE spec_a_PLANE_kIOS(const double*in,double*out){ a_sv<Plane<double>,kIOS<double>>(in,out); }
//@ a_kIOS_HALFSPACE what="conservative advancement table entry mesh of kIOS, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_kIOS_HALFSPACE(const double*in,double*out){ ica(BV_kIOS,GEOM_HALFSPACE,in,out); } PROBE spec_a_kIOS_HALFSPACE(const double*in,double*out){ a_vs<kIOS<double>,Halfspace<double>>(in,out); }
//@ a_HALFSPACE_kIOS what="conservative advancement table entry Halfspace, mesh of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_kIOS(const double*in,double*out){ ica(GEOM_HALFSPACE,BV_kIOS,in,out); } PROBE spec_a_HALFSPACE_kIOS(const double*in,double*out){ a_sv<Halfspace<double>,kIOS<double>>(in,out); }
//@ a_kIOS_kIOS what="conservative advancement table entry meshes of kIOS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_kIOS_kIOS(const double*in,double*out){ ica(BV_kIOS,BV_kIOS,in,out); } PROBE spec_a_kIOS_kIOS(const double*in,double*out){ a_vv<kIOS<double>>(in,out); }
//@ a_OBBRSS_BOX what="conservative advancement table entry mesh of OBBRSS, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBBRSS_BOX(const double*in,double*out){ ica(BV_OBBRSS,GEOM_BOX,in,out); } PROBE spec_a_OBBRSS_BOX(const double*in,double*out){ a_vs<OBBRSS<double>,Box<double>>(in,out); }
//@ a_BOX_OBBRSS what="conservative advancement table entry Box, mesh of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_OBBRSS(const double*in,double*out){ ica(GEOM_BOX,BV_OBBRSS,in,out); } PROBE spec_a_BOX_OBBRSS(const double*in,double*out){ a_sv<Box<double>,OBBRSS<double>>(in,out); }
//@ a_OBBRSS_SPHERE what="conservative advancement table entry mesh of OBBRSS, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBBRSS_SPHERE(const double*in,double*out){ ica(BV_OBBRSS,GEOM_SPHERE,in,out); } PROBE spec_a_OBBRSS_SPHERE(const double*in,double*out){ a_vs<OBBRSS<double>,Sphere<double>>(in,out); }
//@ a_SPHERE_OBBRSS what="conservative advancement table entry Sphere, mesh of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_OBBRSS(const double*in,double*out){ ica(GEOM_SPHERE,BV_OBBRSS,in,out); } PROBE spec_a_SPHERE_OBBRSS(const double*in,double*out){ a_sv<Sphere<double>,OBBRSS<double>>(in,out); }
//@ a_OBBRSS_CAPSULE what="conservative advancement table entry mesh of OBBRSS, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBBRSS_CAPSULE(const double*in,double*out){ ica(BV_OBBRSS,GEOM_CAPSULE,in,out); } PROBE spec_a_OBBRSS_CAPSULE(const double*in,double*out){ a_vs<OBBRSS<double>,Capsule<double>>(in,out); }
//@ a_CAPSULE_OBBRSS what="conservative advancement table entry Capsule, mesh of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_OBBRSS(const double*in,double*out){ ica(GEOM_CAPSULE,BV_OBBRSS,in,out); } PROBE spec_a_CAPSULE_OBBRSS(const double*in,double*out){ a_sv<Capsule<double>,OBBRSS<double>>(in,out); }
//@ a_OBBRSS_CONE what="conservative advancement table entry mesh of OBBRSS, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBBRSS_CONE(const double*in,double*out){ ica(BV_OBBRSS,GEOM_CONE,in,out); } PROBE spec_a_OBBRSS_CONE(const double*in,double*out){ a_vs<OBBRSS<double>,Cone<double>>(in,out); }
//@ a_CONE_OBBRSS what="conservative advancement table entry Cone, mesh of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_OBBRSS(const double*in,double*out){ ica(GEOM_CONE,BV_OBBRSS,in,out); } PROBE spec_a_CONE_OBBRSS(const double*in,double*out){ a_sv<Cone<double>,OBBRSS<double>>(in,out); }
//@ a_OBBRSS_CYLINDER what="conservative advancement table entry mesh of OBBRSS, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBBRSS_CYLINDER(const double*in,double*out){ ica(BV_OBBRSS,GEOM_CYLINDER,in,out); } PROBE spec_a_OBBRSS_CYLINDER(const double*in,double*out){ a_vs<OBBRSS<double>,Cylinder<double>>(in,out); }
//@ a_CYLINDER_OBBRSS what="conservative advancement table entry Cylinder, mesh of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_OBBRSS(const double*in,double*out){ ica(GEOM_CYLINDER,BV_OBBRSS,in,out); } PROBE spec_a_CYLINDER_OBBRSS(const double*in,double*out){ a_sv<Cylinder<double>,OBBRSS<double>>(in,out); }
//@ a_OBBRSS_CONVEX what="conservative advancement table entry mesh of OBBRSS, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBBRSS_CONVEX(const double*in,double*out){ ica(BV_OBBRSS,GEOM_CONVEX,in,out); } PROBE spec_a_OBBRSS_CONVEX(const double*in,double*out){ a_vs<OBBRSS<double>,Convex<double>>(in,out); }
//@ a_CONVEX_OBBRSS what="conservative advancement table entry Convex, mesh of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_OBBRSS(const double*in,double*out){ ica(GEOM_CONVEX,BV_OBBRSS,in,out); } PROBE spec_a_CONVEX_OBBRSS(const double*in,double*out){ a_sv<Convex<double>,OBBRSS<double>>(in,out); }
//@ a_OBBRSS_PLANE what="conservative advancement table entry mesh of OBBRSS, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBBRSS_PLANE(const double*in,double*out){ ica(BV_OBBRSS,GEOM_PLANE,in,out); } PROBE spec_a_OBBRSS_PLANE(const double*in,double*out){ a_vs<OBBRSS<double>,Plane<double>>(in,out); }
//@ a_PLANE_OBBRSS what="conservative advancement table entry Plane, mesh of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_OBBRSS(const double*in,double*out){ ica(GEOM_PLANE,BV_OBBRSS,in,out); } PROBE spec_a_PLANE_OBBRSS(const double*in,double*out){ a_sv<Plane<double>,OBBRSS<double>>(in,out); }
//@ a_OBBRSS_HALFSPACE what="conservative advancement table entry mesh of OBBRSS, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBBRSS_HALFSPACE(const double*in,double*out){ ica(BV_OBBRSS,GEOM_HALFSPACE,in,out); } PROBE spec_a_OBBRSS_HALFSPACE(const double*in,double*out){ a_vs<OBBRSS<double>,Halfspace<double>>(in,out); }
//@ a_HALFSPACE_OBBRSS what="conservative advancement table entry Halfspace, mesh of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_OBBRSS(const double*in,double*out){ ica(GEOM_HALFSPACE,BV_OBBRSS,in,out); } PROBE spec_a_HALFSPACE_OBBRSS(const double*in,double*out){ a_sv<Halfspace<double>,OBBRSS<double>>(in,out); }
//@ a_OBBRSS_OBBRSS what="conservative advancement table entry meshes of OBBRSS" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_OBBRSS_OBBRSS(const double*in,double*out){ ica(BV_OBBRSS,BV_OBBRSS,in,out); } PROBE spec_a_OBBRSS_OBBRSS(const double*in,double*out){ a_vv<OBBRSS<double>>(in,out); }
//@ a_KDOP16_BOX what="conservative advancement table entry mesh of KDOP16, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP16_BOX(const double*in,double*out){ ica(BV_KDOP16,GEOM_BOX,in,out); } PROBE spec_a_KDOP16_BOX(const double*in,double*out){ a_vs<KDOP<double,16>,Box<double>>(in,out); }
//@ a_BOX_KDOP16 what="conservative advancement table entry Box, mesh of KDOP16" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_KDOP16(const double*in,double*out){ ica(GEOM_BOX,BV_KDOP16,in,out); } PROBE spec_a_BOX_KDOP16(const double*in,double*out){ a_sv<Box<double>,KDOP<double,16>>(in,out); }
//@ a_KDOP16_SPHERE what="conservative advancement table entry mesh of KDOP16, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP16_SPHERE(const double*in,double*out){ ica(BV_KDOP16,GEOM_SPHERE,in,out); } PROBE spec_a_KDOP16_SPHERE(const double*in,double*out){ a_vs<KDOP<double,16>,Sphere<double>>(in,out); }
//@ a_SPHERE_KDOP16 what="conservative advancement table entry Sphere, mesh of KDOP16" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_KDOP16(const double*in,double*out){ ica(GEOM_SPHERE,BV_KDOP16,in,out); } PROBE spec_a_SPHERE_KDOP16(const double*in,double*out){ a_sv<Sphere<double>,KDOP<double,16>>(in,out); }
//@ a_KDOP16_CAPSULE what="conservative advancement table entry mesh of KDOP16, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP16_CAPSULE(const double*in,double*out){ ica(BV_KDOP16,GEOM_CAPSULE,in,out); } PROBE spec_a_KDOP16_CAPSULE(const double*in,double*out){ a_vs<KDOP<double,16>,Capsule<double>>(in,out); }
//@ a_CAPSULE_KDOP16 what="conservative advancement table entry Capsule, mesh of KDOP16" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_KDOP16(const double*in,double*out){ ica(GEOM_CAPSULE,BV_KDOP16,in,out); } PROBE spec_a_CAPSULE_KDOP16(const double*in,double*out){ a_sv<Capsule<double>,KDOP<double,16>>(in,out); }
//@ a_KDOP16_CONE what="conservative advancement table entry mesh of KDOP16, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP16_CONE(const double*in,double*out){ ica(BV_KDOP16,GEOM_CONE,in,out); } PROBE spec_a_KDOP16_CONE(const double*in,double*out){ a_vs<KDOP<double,16>,Cone<double>>(in,out); }
//@ a_CONE_KDOP16 what="conservative advancement table entry Cone, mesh of KDOP16" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_KDOP16(const double*in,double*out){ ica(GEOM_CONE,BV_KDOP16,in,out); } PROBE spec_a_CONE_KDOP16(const double*in,double*out){ a_sv<Cone<double>,KDOP<double,16>>(in,out); }
//@ a_KDOP16_CYLINDER what="conservative advancement table entry mesh of KDOP16, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP16_CYLINDER(const double*in,double*out){ ica(BV_KDOP16,GEOM_CYLINDER,in,out); } PROBE spec_a_KDOP16_CYLINDER(const double*in,double*out){ a_vs<KDOP<double,16>,Cylinder<double>>(in,out); }
//@ a_CYLINDER_KDOP16 what="conservative advancement table entry Cylinder, mesh of KDOP16" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_KDOP16(const double*in,double*out){ ica(GEOM_CYLINDER,BV_KDOP16,in,out); } PROBE spec_a_CYLINDER_KDOP16(const double*in,double*out){ a_sv<Cylinder<double>,KDOP<double,16>>(in,out); }
//@ a_KDOP16_CONVEX what="conservative advancement table entry mesh of KDOP16, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP16_CONVEX(const double*in,double*out){ ica(BV_KDOP16,GEOM_CONVEX,in,out); } PROBE spec_a_KDOP16_CONVEX(const double*in,double*out){ a_vs<KDOP<double,16>,Convex<double>>(in,out); }
//@ a_CONVEX_KDOP16 what="conservative advancement table entry Convex, mesh of KDOP16" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_KDOP16(const double*in,double*out){ ica(GEOM_CONVEX,BV_KDOP16,in,out); } PROBE spec_a_CONVEX_KDOP16(const double*in,double*out){ a_sv<Convex<double>,KDOP<double,16>>(in,out); }
//@ a_KDOP16_PLANE what="conservative advancement table entry mesh of KDOP16, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP16_PLANE(const double*in,double*out){ ica(BV_KDOP16,GEOM_PLANE,in,out); } PROBE spec_a_KDOP16_PLANE(const double*in,double*out){ a_vs<KDOP<double,16>,Plane<double>>(in,out); }
//@ a_PLANE_KDOP16 what="conservative advancement table entry Plane, mesh of KDOP16" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_KDOP16(const double*in,double*out){ ica(GEOM_PLANE,BV_KDOP16,in,out); } PROBE spec_a_PLANE_KDOP16(const double*in,double*out){ a_sv<Plane<double>,KDOP<double,16>>(in,out); }
//@ a_KDOP16_HALFSPACE what="conservative advancement table entry mesh of KDOP16, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP16_HALFSPACE(const double*in,double*out){ ica(BV_KDOP16,GEOM_HALFSPACE,in,out); } PROBE spec_a_KDOP16_HALFSPACE(const double*in,double*out){ a_vs<KDOP<double,16>,Halfspace<double>>(in,out); }
//@ a_HALFSPACE_KDOP16 what="conservative advancement table entry Halfspace, mesh of KDOP16" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_KDOP16(const double*in,double*out){ ica(GEOM_HALFSPACE,BV_KDOP16,in,out); } PROBE spec_a_HALFSPACE_KDOP16(const double*in,double*out){ a_sv<Halfspace<double>,KDOP<double,16>>(in,out); }
//@ a_KDOP16_KDOP16 what="conservative advancement table entry meshes of KDOP16" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP16_KDOP16(const double*in,double*out){ ica(BV_KDOP16,BV_KDOP16,in,out); } PROBE spec_a_KDOP16_KDOP16(const double*in,double*out){ a_vv<KDOP<double,16>>(in,out); }
//@ a_KDOP18_BOX what="conservative advancement table entry mesh of KDOP18, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP18_BOX(const double*in,double*out){ ica(BV_KDOP18,GEOM_BOX,in,out); } PROBE spec_a_KDOP18_BOX(const double*in,double*out){ a_vs<KDOP<double,18>,Box<double>>(in,out); }
//@ a_BOX_KDOP18 what="conservative advancement table entry Box, mesh of KDOP18" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_KDOP18(const double*in,double*out){ ica(GEOM_BOX,BV_KDOP18,in,out); } PROBE spec_a_BOX_KDOP18(const double*in,double*out){ a_sv<Box<double>,KDOP<double,18>>(in,out); }
//@ a_KDOP18_SPHERE what="conservative advancement table entry mesh of KDOP18, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP18_SPHERE(const double*in,double*out){ ica(BV_KDOP18,GEOM_SPHERE,in,out); } PROBE spec_a_KDOP18_SPHERE(const double*in,double*out){ a_vs<KDOP<double,18>,Sphere<double>>(in,out); }
//@ a_SPHERE_KDOP18 what="conservative advancement table entry Sphere, mesh of KDOP18" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_KDOP18(const double*in,double*out){ ica(GEOM_SPHERE,BV_KDOP18,in,out); } PROBE spec_a_SPHERE_KDOP18(const double*in,double*out){ a_sv<Sphere<double>,KDOP<double,18>>(in,out); }
//@ a_KDOP18_CAPSULE what="conservative advancement table entry mesh of KDOP18, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP18_CAPSULE(const double*in,double*out){ ica(BV_KDOP18,GEOM_CAPSULE,in,out); } PROBE spec_a_KDOP18_CAPSULE(const double*in,double*out){ a_vs<KDOP<double,18>,Capsule<double>>(in,out); }
//@ a_CAPSULE_KDOP18 what="conservative advancement table entry Capsule, mesh of KDOP18" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_KDOP18(const double*in,double*out){ ica(GEOM_CAPSULE,BV_KDOP18,in,out); } PROBE spec_a_CAPSULE_KDOP18(const double*in,double*out){ a_sv<Capsule<double>,KDOP<double,18>>(in,out); }
//@ a_KDOP18_CONE what="conservative advancement table entry mesh of KDOP18, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP18_CONE(const double*in,double*out){ ica(BV_KDOP18,GEOM_CONE,in,out); } PROBE spec_a_KDOP18_CONE(const double*in,double*out){ a_vs<KDOP<double,18>,Cone<double>>(in,out); }
//@ a_CONE_KDOP18 what="conservative advancement table entry Cone, mesh of KDOP18" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_KDOP18(const double*in,double*out){ ica(GEOM_CONE,BV_KDOP18,in,out); } PROBE spec_a_CONE_KDOP18(const double*in,double*out){ a_sv<Cone<double>,KDOP<double,18>>(in,out); }
//@ a_KDOP18_CYLINDER what="conservative advancement table entry mesh of KDOP18, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP18_CYLINDER(const double*in,double*out){ ica(BV_KDOP18,GEOM_CYLINDER,in,out); } PROBE spec_a_KDOP18_CYLINDER(const double*in,double*out){ a_vs<KDOP<double,18>,Cylinder<double>>(in,out); }
//@ a_CYLINDER_KDOP18 what="conservative advancement table entry Cylinder, mesh of KDOP18" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_KDOP18(const double*in,double*out){ ica(GEOM_CYLINDER,BV_KDOP18,in,out); } PROBE spec_a_CYLINDER_KDOP18(const double*in,double*out){ a_sv<Cylinder<double>,KDOP<double,18>>(in,out); }
//@ a_KDOP18_CONVEX what="conservative advancement table entry mesh of KDOP18, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP18_CONVEX(const double*in,double*out){ ica(BV_KDOP18,GEOM_CONVEX,in,out); } PROBE spec_a_KDOP18_CONVEX(const double*in,double*out){ a_vs<KDOP<double,18>,Convex<double>>(in,out); }
//@ a_CONVEX_KDOP18 what="conservative advancement table entry Convex, mesh of KDOP18" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_KDOP18(const double*in,double*out){ ica(GEOM_CONVEX,BV_KDOP18,in,out); } PROBE spec_a_CONVEX_KDOP18(const double*in,double*out){ a_sv<Convex<double>,KDOP<double,18>>(in,out); }
//@ a_KDOP18_PLANE what="conservative advancement table entry mesh of KDOP18, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP18_PLANE(const double*in,double*out){ ica(BV_KDOP18,GEOM_PLANE,in,out); } PROBE spec_a_KDOP18_PLANE(const double*in,double*out){ a_vs<KDOP<double,18>,Plane<double>>(in,out); }
//@ a_PLANE_KDOP18 what="conservative advancement table entry Plane, mesh of KDOP18" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_KDOP18(const double*in,double*out){ ica(GEOM_PLANE,BV_KDOP18,in,out); } PROBE spec_a_PLANE_KDOP18(const double*in,double*out){ a_sv<Plane<double>,KDOP<double,18>>(in,out); }
//@ a_KDOP18_HALFSPACE what="conservative advancement table entry mesh of KDOP18, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP18_HALFSPACE(const double*in,double*out){ ica(BV_KDOP18,GEOM_HALFSPACE,in,out); } PROBE spec_a_KDOP18_HALFSPACE(const double*in,double*out){ a_vs<KDOP<double,18>,Halfspace<double>>(in,out); }
//@ a_HALFSPACE_KDOP18 what="conservative advancement table entry Halfspace, mesh of KDOP18" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_KDOP18(const double*in,double*out){ ica(GEOM_HALFSPACE,BV_KDOP18,in,out); } PROBE spec_a_HALFSPACE_KDOP18(const double*in,double*out){ a_sv<Halfspace<double>,KDOP<double,18>>(in,out); }
//@ a_KDOP18_KDOP18 what="conservative advancement table entry meshes of KDOP18" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP18_KDOP18(const double*in,double*out){ ica(BV_KDOP18,BV_KDOP18,in,out); } PROBE spec_a_KDOP18_KDOP18(const double*in,double*out){ a_vv<KDOP<double,18>>(in,out); }
//@ a_KDOP24_BOX what="conservative advancement table entry mesh of KDOP24, Box" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP24_BOX(const double*in,double*out){ ica(BV_KDOP24,GEOM_BOX,in,out); } PROBE spec_a_KDOP24_BOX(const double*in,double*out){ a_vs<KDOP<double,24>,Box<double>>(in,out); }
//@ a_BOX_KDOP24 what="conservative advancement table entry Box, mesh of KDOP24" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_BOX_KDOP24(const double*in,double*out){ ica(GEOM_BOX,BV_KDOP24,in,out); } PROBE spec_a_BOX_KDOP24(const double*in,double*out){ a_sv<Box<double>,KDOP<double,24>>(in,out); }
//@ a_KDOP24_SPHERE what="conservative advancement table entry mesh of KDOP24, Sphere" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP24_SPHERE(const double*in,double*out){ ica(BV_KDOP24,GEOM_SPHERE,in,out); } PROBE spec_a_KDOP24_SPHERE(const double*in,double*out){ a_vs<KDOP<double,24>,Sphere<double>>(in,out); }
//@ a_SPHERE_KDOP24 what="conservative advancement table entry Sphere, mesh of KDOP24" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_SPHERE_KDOP24(const double*in,double*out){ ica(GEOM_SPHERE,BV_KDOP24,in,out); } PROBE spec_a_SPHERE_KDOP24(const double*in,double*out){ a_sv<Sphere<double>,KDOP<double,24>>(in,out); }
//@ a_KDOP24_CAPSULE what="conservative advancement table entry mesh of KDOP24, Capsule" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP24_CAPSULE(const double*in,double*out){ ica(BV_KDOP24,GEOM_CAPSULE,in,out); } PROBE spec_a_KDOP24_CAPSULE(const double*in,double*out){ a_vs<KDOP<double,24>,Capsule<double>>(in,out); }
//@ a_CAPSULE_KDOP24 what="conservative advancement table entry Capsule, mesh of KDOP24" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CAPSULE_KDOP24(const double*in,double*out){ ica(GEOM_CAPSULE,BV_KDOP24,in,out); } PROBE spec_a_CAPSULE_KDOP24(const double*in,double*out){ a_sv<Capsule<double>,KDOP<double,24>>(in,out); }
//@ a_KDOP24_CONE what="conservative advancement table entry mesh of KDOP24, Cone" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP24_CONE(const double*in,double*out){ ica(BV_KDOP24,GEOM_CONE,in,out); } PROBE spec_a_KDOP24_CONE(const double*in,double*out){ a_vs<KDOP<double,24>,Cone<double>>(in,out); }
//@ a_CONE_KDOP24 what="conservative advancement table entry Cone, mesh of KDOP24" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONE_KDOP24(const double*in,double*out){ ica(GEOM_CONE,BV_KDOP24,in,out); } PROBE spec_a_CONE_KDOP24(const double*in,double*out){ a_sv<Cone<double>,KDOP<double,24>>(in,out); }
//@ a_KDOP24_CYLINDER what="conservative advancement table entry mesh of KDOP24, Cylinder" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP24_CYLINDER(const double*in,double*out){ ica(BV_KDOP24,GEOM_CYLINDER,in,out); } PROBE spec_a_KDOP24_CYLINDER(const double*in,double*out){ a_vs<KDOP<double,24>,Cylinder<double>>(in,out); }
//@ a_CYLINDER_KDOP24 what="conservative advancement table entry Cylinder, mesh of KDOP24" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CYLINDER_KDOP24(const double*in,double*out){ ica(GEOM_CYLINDER,BV_KDOP24,in,out); } PROBE spec_a_CYLINDER_KDOP24(const double*in,double*out){ a_sv<Cylinder<double>,KDOP<double,24>>(in,out); }
//@ a_KDOP24_CONVEX what="conservative advancement table entry mesh of KDOP24, Convex" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP24_CONVEX(const double*in,double*out){ ica(BV_KDOP24,GEOM_CONVEX,in,out); } PROBE spec_a_KDOP24_CONVEX(const double*in,double*out){ a_vs<KDOP<double,24>,Convex<double>>(in,out); }
//@ a_CONVEX_KDOP24 what="conservative advancement table entry Convex, mesh of KDOP24" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_CONVEX_KDOP24(const double*in,double*out){ ica(GEOM_CONVEX,BV_KDOP24,in,out); } PROBE spec_a_CONVEX_KDOP24(const double*in,double*out){ a_sv<Convex<double>,KDOP<double,24>>(in,out); }
//@ a_KDOP24_PLANE what="conservative advancement table entry mesh of KDOP24, Plane" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP24_PLANE(const double*in,double*out){ ica(BV_KDOP24,GEOM_PLANE,in,out); } PROBE spec_a_KDOP24_PLANE(const double*in,double*out){ a_vs<KDOP<double,24>,Plane<double>>(in,out); }
//@ a_PLANE_KDOP24 what="conservative advancement table entry Plane, mesh of KDOP24" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_PLANE_KDOP24(const double*in,double*out){ ica(GEOM_PLANE,BV_KDOP24,in,out); } PROBE spec_a_PLANE_KDOP24(const double*in,double*out){ a_sv<Plane<double>,KDOP<double,24>>(in,out); }
//@ a_KDOP24_HALFSPACE what="conservative advancement table entry mesh of KDOP24, Halfspace" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP24_HALFSPACE(const double*in,double*out){ ica(BV_KDOP24,GEOM_HALFSPACE,in,out); } PROBE spec_a_KDOP24_HALFSPACE(const double*in,double*out){ a_vs<KDOP<double,24>,Halfspace<double>>(in,out); }
//@ a_HALFSPACE_KDOP24 what="conservative advancement table entry Halfspace, mesh of KDOP24" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_HALFSPACE_KDOP24(const double*in,double*out){ ica(GEOM_HALFSPACE,BV_KDOP24,in,out); } PROBE spec_a_HALFSPACE_KDOP24(const double*in,double*out){ a_sv<Halfspace<double>,KDOP<double,24>>(in,out); }
//@ a_KDOP24_KDOP24 what="conservative advancement table entry meshes of KDOP24" nonnull="0,1,2,3,4,5,6" if=CHK:4
PROBE impl_a_KDOP24_KDOP24(const double*in,double*out){ ica(BV_KDOP24,BV_KDOP24,in,out); } PROBE spec_a_KDOP24_KDOP24(const double*in,double*out){ a_vv<KDOP<double,24>>(in,out); }
#endif
#if CHK==5
typedef Box<double> X_Box;
//@ t_Box what="type codes of Box" if=CHK:5
PROBE impl_t_Box(const double*in,double*out){ const X_Box*o=*(const X_Box**)in; out[0]=o->X_Box::getNodeType(); out[1]=o->X_Box::getObjectType(); } PROBE spec_t_Box(const double*in,double*out){ out[0]=GEOM_BOX; out[1]=OT_GEOM; }
typedef Sphere<double> X_Sphere;
//@ t_Sphere what="type codes of Sphere" if=CHK:5
PROBE impl_t_Sphere(const double*in,double*out){ const X_Sphere*o=*(const X_Sphere**)in; out[0]=o->X_Sphere::getNodeType(); out[1]=o->X_Sphere::getObjectType(); } PROBE spec_t_Sphere(const double*in,double*out){ out[0]=GEOM_SPHERE; out[1]=OT_GEOM; }
typedef Capsule<double> X_Capsule;
//@ t_Capsule what="type codes of Capsule" if=CHK:5
PROBE impl_t_Capsule(const double*in,double*out){ const X_Capsule*o=*(const X_Capsule**)in; out[0]=o->X_Capsule::getNodeType(); out[1]=o->X_Capsule::getObjectType(); } PROBE spec_t_Capsule(const double*in,double*out){ out[0]=GEOM_CAPSULE; out[1]=OT_GEOM; }
typedef Cone<double> X_Cone;
//@ t_Cone what="type codes of Cone" if=CHK:5
PROBE impl_t_Cone(const double*in,double*out){ const X_Cone*o=*(const X_Cone**)in; out[0]=o->X_Cone::getNodeType(); out[1]=o->X_Cone::getObjectType(); } PROBE spec_t_Cone(const double*in,double*out){ out[0]=GEOM_CONE; out[1]=OT_GEOM; }
typedef Cylinder<double> X_Cylinder;
//@ t_Cylinder what="type codes of Cylinder" if=CHK:5
PROBE impl_t_Cylinder(const double*in,double*out){ const X_Cylinder*o=*(const X_Cylinder**)in; out[0]=o->X_Cylinder::getNodeType(); out[1]=o->X_Cylinder::getObjectType(); } PROBE spec_t_Cylinder(const double*in,double*out){ out[0]=GEOM_CYLINDER; out[1]=OT_GEOM; }
typedef Convex<double> X_Convex;
//@ t_Convex what="type codes of Convex" if=CHK:5
PROBE impl_t_Convex(const double*in,double*out){ const X_Convex*o=*(const X_Convex**)in; out[0]=o->X_Convex::getNodeType(); out[1]=o->X_Convex::getObjectType(); } PROBE spec_t_Convex(const double*in,double*out){ out[0]=GEOM_CONVEX; out[1]=OT_GEOM; }
typedef Plane<double> X_Plane;
//@ t_Plane what="type codes of Plane" if=CHK:5
PROBE impl_t_Plane(const double*in,double*out){ const X_Plane*o=*(const X_Plane**)in; out[0]=o->X_Plane::getNodeType(); out[1]=o->X_Plane::getObjectType(); } PROBE spec_t_Plane(const double*in,double*out){ out[0]=GEOM_PLANE; out[1]=OT_GEOM; }
typedef Halfspace<double> X_Halfspace;
//@ t_Halfspace what="type codes of Halfspace" if=CHK:5
PROBE impl_t_Halfspace(const double*in,double*out){ const X_Halfspace*o=*(const X_Halfspace**)in; out[0]=o->X_Halfspace::getNodeType(); out[1]=o->X_Halfspace::getObjectType(); } PROBE spec_t_Halfspace(const double*in,double*out){ out[0]=GEOM_HALFSPACE; out[1]=OT_GEOM; }
typedef Ellipsoid<double> X_Ellipsoid;
//@ t_Ellipsoid what="type codes of Ellipsoid" if=CHK:5
PROBE impl_t_Ellipsoid(const double*in,double*out){ const X_Ellipsoid*o=*(const X_Ellipsoid**)in; out[0]=o->X_Ellipsoid::getNodeType(); out[1]=o->X_Ellipsoid::getObjectType(); } PROBE spec_t_Ellipsoid(const double*in,double*out){ out[0]=GEOM_ELLIPSOID; out[1]=OT_GEOM; }
typedef TriangleP<double> X_TriangleP;
//@ t_TriangleP what="type codes of TriangleP" if=CHK:5
PROBE impl_t_TriangleP(const double*in,double*out){ const X_TriangleP*o=*(const X_TriangleP**)in; out[0]=o->X_TriangleP::getNodeType(); out[1]=o->X_TriangleP::getObjectType(); } PROBE spec_t_TriangleP(const double*in,double*out){ out[0]=GEOM_TRIANGLE; out[1]=OT_GEOM; }
typedef OcTree<double> X_OcTree;
//@ t_OcTree what="type codes of OcTree" if=CHK:5
PROBE impl_t_OcTree(const double*in,double*out){ const X_OcTree*o=*(const X_OcTree**)in; out[0]=o->X_OcTree::getNodeType(); out[1]=o->X_OcTree::getObjectType(); } PROBE spec_t_OcTree(const double*in,double*out){ out[0]=GEOM_OCTREE; out[1]=OT_OCTREE; }
typedef BVHModel<AABB<double> > X_mesh_AABB;
//@ t_mesh_AABB what="type codes of mesh_AABB" if=CHK:5
PROBE impl_t_mesh_AABB(const double*in,double*out){ const X_mesh_AABB*o=*(const X_mesh_AABB**)in; out[0]=o->X_mesh_AABB::getNodeType(); out[1]=o->X_mesh_AABB::getObjectType(); } PROBE spec_t_mesh_AABB(const double*in,double*out){ out[0]=BV_AABB; out[1]=OT_BVH; }
typedef BVHModel<OBB<double> > X_mesh_OBB;
//@ t_mesh_OBB what="type codes of mesh_OBB" if=CHK:5
PROBE impl_t_mesh_OBB(const double*in,double*out){ const X_mesh_OBB*o=*(const X_mesh_OBB**)in; out[0]=o->X_mesh_OBB::getNodeType(); out[1]=o->X_mesh_OBB::getObjectType(); } PROBE spec_t_mesh_OBB(const double*in,double*out){ out[0]=BV_OBB; out[1]=OT_BVH; }
typedef BVHModel<RSS<double> > X_mesh_RSS;
//@ t_mesh_RSS what="type codes of mesh_RSS" if=CHK:5
PROBE impl_t_mesh_RSS(const double*in,double*out){ const X_mesh_RSS*o=*(const X_mesh_RSS**)in; out[0]=o->X_mesh_RSS::getNodeType(); out[1]=o->X_mesh_RSS::getObjectType(); } PROBE spec_t_mesh_RSS(const double*in,double*out){ out[0]=BV_RSS; out[1]=OT_BVH; }
typedef BVHModel<kIOS<double> > X_mesh_kIOS;
//@ t_mesh_kIOS what="type codes of mesh_kIOS" if=CHK:5
PROBE impl_t_mesh_kIOS(const double*in,double*out){ const X_mesh_kIOS*o=*(const X_mesh_kIOS**)in; out[0]=o->X_mesh_kIOS::getNodeType(); out[1]=o->X_mesh_kIOS::getObjectType(); } PROBE spec_t_mesh_kIOS(const double*in,double*out){ out[0]=BV_kIOS; out[1]=OT_BVH; }
typedef BVHModel<OBBRSS<double> > X_mesh_OBBRSS;
//@ t_mesh_OBBRSS what="type codes of mesh_OBBRSS" if=CHK:5
PROBE impl_t_mesh_OBBRSS(const double*in,double*out){ const X_mesh_OBBRSS*o=*(const X_mesh_OBBRSS**)in; out[0]=o->X_mesh_OBBRSS::getNodeType(); out[1]=o->X_mesh_OBBRSS::getObjectType(); } PROBE spec_t_mesh_OBBRSS(const double*in,double*out){ out[0]=BV_OBBRSS; out[1]=OT_BVH; }
typedef BVHModel<KDOP<double,16> > X_mesh_KDOP16;
//@ t_mesh_KDOP16 what="type codes of mesh_KDOP16" if=CHK:5
PROBE impl_t_mesh_KDOP16(const double*in,double*out){ const X_mesh_KDOP16*o=*(const X_mesh_KDOP16**)in; out[0]=o->X_mesh_KDOP16::getNodeType(); out[1]=o->X_mesh_KDOP16::getObjectType(); } PROBE spec_t_mesh_KDOP16(const double*in,double*out){ out[0]=BV_KDOP16; out[1]=OT_BVH; }
typedef BVHModel<KDOP<double,18> > X_mesh_KDOP18;
//@ t_mesh_KDOP18 what="type codes of mesh_KDOP18" if=CHK:5
PROBE impl_t_mesh_KDOP18(const double*in,double*out){ const X_mesh_KDOP18*o=*(const X_mesh_KDOP18**)in; out[0]=o->X_mesh_KDOP18::getNodeType(); out[1]=o->X_mesh_KDOP18::getObjectType(); } PROBE spec_t_mesh_KDOP18(const double*in,double*out){ out[0]=BV_KDOP18; out[1]=OT_BVH; }
typedef BVHModel<KDOP<double,24> > X_mesh_KDOP24;
//@ t_mesh_KDOP24 what="type codes of mesh_KDOP24" if=CHK:5
PROBE impl_t_mesh_KDOP24(const double*in,double*out){ const X_mesh_KDOP24*o=*(const X_mesh_KDOP24**)in; out[0]=o->X_mesh_KDOP24::getNodeType(); out[1]=o->X_mesh_KDOP24::getObjectType(); } PROBE spec_t_mesh_KDOP24(const double*in,double*out){ out[0]=BV_KDOP24; out[1]=OT_BVH; }
#endif
