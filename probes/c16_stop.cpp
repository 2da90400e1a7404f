// C16: every broadphase query, as an entry of the stop-protocol analysis.  Never executed; analysed as IR.
#include "probe.h"
#include "fcl/broadphase/broadphase_bruteforce.h"
#include "fcl/broadphase/broadphase_SSaP.h"
#include "fcl/broadphase/broadphase_SaP.h"
#include "fcl/broadphase/broadphase_interval_tree.h"
#include "fcl/broadphase/broadphase_spatialhash.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree_array.h"
#include "fcl/broadphase/detail/sparse_hash_table.h"
#include "fcl/geometry/octree/octree.h"
using namespace fcl; using namespace fcl::detail;
typedef CollisionCallBack<double> CC; typedef DistanceCallBack<double> DC; typedef CollisionObject<double> CO; typedef AABB<double> BB; typedef OcTree<double> OT;
#define ENTRY extern "C" __attribute__((used))
#define MGR(n,...) typedef __VA_ARGS__ M_##n; \
ENTRY void q_##n##_collide_object(const M_##n*m,CO*o,void*c,CC f){ m->M_##n::collide(o,c,f); } \
ENTRY void q_##n##_distance_object(const M_##n*m,CO*o,void*c,DC f){ m->M_##n::distance(o,c,f); } \
ENTRY void q_##n##_collide_all(const M_##n*m,void*c,CC f){ m->M_##n::collide(c,f); } \
ENTRY void q_##n##_distance_all(const M_##n*m,void*c,DC f){ m->M_##n::distance(c,f); } \
ENTRY void q_##n##_collide_manager(const M_##n*m,M_##n*o,void*c,CC f){ m->M_##n::collide(o,c,f); } \
ENTRY void q_##n##_distance_manager(const M_##n*m,M_##n*o,void*c,DC f){ m->M_##n::distance(o,c,f); }
MGR(Naive,NaiveCollisionManager<double>)
MGR(SSaP,SSaPCollisionManager<double>)
MGR(SaP,SaPCollisionManager<double>)
MGR(IntervalTree,IntervalTreeCollisionManager<double>)
MGR(SpatialHash,SpatialHashingCollisionManager<double>)
MGR(Tree,DynamicAABBTreeCollisionManager<double>)
MGR(TreeArray,DynamicAABBTreeCollisionManager_Array<double>)
