// Leaf tests of the collision traversals with opaque geometry, and the reference procedure.
#include "mocks.h"
#include "fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/collision/shape_mesh_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node.h"
// inputs: 0 geom1, 1 geom2, 2 vertices1, 3 vertices2, 4 tri1, 5 tri2, 6 b1, 7 b2, 8 count, 9 max contacts, 10 enable_contact, 11 enable_cost, 12 max costs, 13 density, 14.. tf1 (12), 26.. tf2 (12), 38.. R,T (12), 50 statistics
#define SETREQ n.request.num_max_contacts=MAXC; n.request.enable_contact=BOOL(10); n.request.enable_cost=BOOL(11); n.request.num_max_cost_sources=LNG(12); Res R(CNT0); n.result=&R.r(); n.enable_statistics=BOOL(50); n.tf1=gt(in+14); n.tf2=gt(in+26)
#define SETMM(BV) n.model1=PTR(BVHModel<BV>,0); n.model2=PTR(BVHModel<BV>,1); n.vertices1=PTR(V3,2); n.vertices2=PTR(V3,3); n.tri_indices1=PTR(Triangle,4); n.tri_indices2=PTR(Triangle,5); n.cost_density=in[13]; SETREQ
#define SETMS(BV) n.model1=PTR(BVHModel<BV>,0); n.model2=PTR(MS,1); n.vertices=PTR(V3,2); n.tri_indices=PTR(Triangle,4); n.cost_density=in[13]; MSolver sv; n.nsolver=&sv; SETREQ
#define SETSM(BV) n.model1=PTR(MS,0); n.model2=PTR(BVHModel<BV>,1); n.vertices=PTR(V3,2); n.tri_indices=PTR(Triangle,4); n.cost_density=in[13]; MSolver sv; n.nsolver=&sv; SETREQ
#define SETSS n.model1=PTR(MS,0); n.model2=PTR(MS2,1); n.cost_density=in[13]; MSolver sv; n.nsolver=&sv; SETREQ
