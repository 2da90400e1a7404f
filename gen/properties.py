#!/usr/bin/env python3
"""writes /verif/properties.jsonl (single source of the property texts)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in (state or [])],
                          'observe_at': observe or [], 'hook_needed': None}})
I = 'include/fcl/'
N = I + 'narrowphase/'
D = N + 'detail/'
TR = D + 'traversal/'
BP = I + 'broadphase/'

p('C01', 'Every type pair is dispatched to the routine for exactly that pair',
  'For every ordered pair of geometry types for which collision, distance or conservative-advancement is offered, a query runs the routine written for exactly those two types in that order, and each geometry reports its own type code. A pair that is offered in one order is offered in the other order too, and no supported pair is left without a routine.',
  ['inputs', 'configurations'], 'all ordered pairs of the supported geometry types, for both narrowphase solvers and all three query kinds',
  'The three tables have about 1000 entries per solver; tests touch some tens of them, and a wrong neighbour entry still returns plausible booleans.',
  [D + 'collision_func_matrix-inl.h', D + 'distance_func_matrix-inl.h', D + 'conservative_advancement_func_matrix-inl.h', N + 'collision-inl.h', N + 'distance-inl.h', I + 'geometry/shape/', I + 'geometry/bvh/BVH_model-inl.h', I + 'geometry/octree/octree-inl.h'],
  [('collision table', D + 'collision_func_matrix-inl.h'), ('distance table', D + 'distance_func_matrix-inl.h'), ('conservative advancement table', D + 'conservative_advancement_func_matrix-inl.h')])

p('C02', 'A collision query never reports more contacts than requested',
  'Whatever the two geometries are, a collision query never makes the number of contacts in the result exceed the maximum number of contacts in the request, and never adds a contact to a result that already holds that many.',
  ['inputs', 'configurations'], 'all geometry pairs (primitive, mesh, octree), poses, contact limits and pre-filled results',
  'Tests use a handful of scenes and mostly limits of 1 or very large limits; every site that records a contact has to respect the limit for every number of contacts already there.',
  [TR + 'collision/mesh_collision_traversal_node-inl.h', TR + 'collision/mesh_shape_collision_traversal_node-inl.h', TR + 'collision/shape_mesh_collision_traversal_node-inl.h', TR + 'collision/shape_collision_traversal_node-inl.h', TR + 'octree/octree_solver-inl.h'],
  [('limit test before each recorded contact', TR)], ['CollisionResult::numContacts()'])

p('C03', 'Occupancy and request flags decide what a collision query records',
  'A contact is recorded only between two occupied regions, and a cost source only when the request enables costs and neither region is free; positions, normals and depths are only computed when the request enables contacts. Every recorded cost source comes from an actual intersection test that succeeded (or from octree cells whose bounding boxes overlap when cells of unknown occupancy are involved), with the product of the two cost densities.',
  ['inputs', 'configurations'], 'all geometry pairs, all occupancy/cost-density values and all request flag combinations',
  'Uncertain/free/occupied combinations and cost queries are exercised by very few tests (only octree-mesh scenes with default thresholds).',
  [TR + 'collision/', TR + 'octree/octree_solver-inl.h', I + 'geometry/collision_geometry-inl.h'],
  [('leaf tests', TR + 'collision/'), ('occupancy predicates', I + 'geometry/collision_geometry-inl.h')])

p('C04', 'Contacts and nearest features name the right object and primitive',
  'In every recorded contact and every recorded nearest-feature pair, the first object, primitive id and point belong to the first geometry of the leaf test and the second to the second geometry; the transform applied to a vertex is that of the object that owns it, and contact normals are flipped exactly when the roles of the two objects are exchanged.',
  ['inputs'], 'all geometry pairs and poses, both narrowphase solvers',
  'Most tests only check the boolean or the distance, and scenes are often symmetric, so exchanged roles go unnoticed.',
  [TR + 'collision/', TR + 'distance/', TR + 'octree/octree_solver-inl.h', D + 'gjk_solver_libccd-inl.h', D + 'gjk_solver_indep-inl.h'],
  [('contact construction', TR + 'collision/'), ('distance update', TR + 'distance/')])

p('C05', 'Bounding-volume traversals never skip a candidate pair without a reason',
  'The recursive traversals over bounding-volume trees visit every pair of primitives except those below a node pair whose bounding volumes were found disjoint (or, for distance, not closer than the current result), or after the request has already been satisfied. In particular both children of a split node are always visited, with the other side unchanged, and a pair of leaves is always tested.',
  ['inputs'], 'all trees (shapes, depths), all bounding-volume outcomes and all requests',
  'Tests sample a few meshes; a skipped subtree only shows when the single colliding pair lies below it.',
  [TR + 'traversal_recurse-inl.h', TR + 'collision/bvh_collision_traversal_node-inl.h', TR + 'collision/bvh_shape_collision_traversal_node-inl.h', TR + 'collision/shape_bvh_collision_traversal_node-inl.h', TR + 'distance/', I + 'geometry/bvh/BV_node_base.h'],
  [('collision recursion', TR + 'traversal_recurse-inl.h'), ('distance recursion', TR + 'traversal_recurse-inl.h'), ('child selection', TR + 'collision/bvh_collision_traversal_node-inl.h')])

p('C06', 'Axis-aligned boxes: overlap, containment, union and distance are exact',
  'Two axis-aligned boxes are reported overlapping exactly when they share a point (touching included), containing exactly when one is a subset of the other; the union is the smallest box containing both and the intersection box is exact. The distance between boxes is the Euclidean distance between the point sets and the reported nearest points realise it.',
  ['inputs'], 'all axis-aligned boxes (min <= max), including touching, degenerate and nested ones',
  'No unit test enumerates box orderings; off-by-one-axis or tie errors survive random scenes.',
  [I + 'math/bv/AABB-inl.h'], [('AABB algebra', I + 'math/bv/AABB-inl.h')])

p('C07', 'Oriented and discrete bounding volumes decide overlap and merge correctly',
  'Oriented boxes are reported disjoint only when one of the fifteen separating axes separates them (up to the documented tolerance), k-DOPs exactly when some slab separates them, and the sphere/box combinations only when one of their members is disjoint. Merging k-DOPs gives the slab-wise smallest one, and translating, sizing and containment queries of these volumes agree with their geometric definition.',
  ['inputs'], 'all volumes of each kind and all relative poses',
  'A wrong axis, sign or index in one of the fifteen tests only matters for poses where that axis is the only separating one.',
  [I + 'math/bv/OBB-inl.h', I + 'math/bv/kDOP-inl.h', I + 'math/bv/kIOS-inl.h', I + 'math/bv/OBBRSS-inl.h', I + 'math/bv/RSS-inl.h'],
  [('separating axis test', I + 'math/bv/OBB-inl.h'), ('k-DOP slabs', I + 'math/bv/kDOP-inl.h')])

p('C08', 'Bounding boxes of shapes contain the posed shape and are tight where exact',
  'For every primitive shape and rigid pose, the axis-aligned and oriented boxes computed for the posed shape contain every point of the shape; for spheres, boxes, capsules, ellipsoids and triangles (axis-aligned) and for all oriented boxes they have exactly the extents of the shape\'s own bounding box under the pose. The local bounding box, centre and bounding radius of every shape describe the same solid. The vertices used to bound a curved shape span a polytope containing it, and the k-DOP of a half-space or plane is bounded exactly in the slab direction parallel to its normal.',
  ['inputs'], 'all shape parameters and poses',
  'Tests check a few shapes at a few poses; a too small extent along one axis loses collisions silently in every broadphase.',
  [I + 'geometry/shape/utility-inl.h', I + 'geometry/shape/'], [('computeBV specialisations', I + 'geometry/shape/utility-inl.h'), ('computeLocalAABB', I + 'geometry/shape/')])

p('C09', 'Volume, centre of mass and inertia of primitive shapes are the analytic ones',
  'For every primitive solid and every parameter value, volume, centre of mass and moment of inertia returned by the library equal the closed-form values of the solid in its own frame, with unit density (a convex polyhedron reports its inertia for unit mass); the same quantities of triangle meshes and convex polyhedra are the integrals over the signed tetrahedra of their faces, and the inertia about the centre of mass follows from the parallel-axis theorem.',
  ['inputs'], 'all parameter values of sphere, box, ellipsoid, capsule, cylinder, cone',
  'Existing tests check one or two parameter sets for two shapes only.',
  [I + 'geometry/shape/'], [('computeVolume / computeMomentofInertia / computeCOM', I + 'geometry/shape/')])

p('C10', 'Half-space and plane contacts are geometrically exact',
  'For every convex primitive against a half-space or a plane, in every pose, contact is reported exactly when the shape reaches into the half-space (touches the plane), with penetration depth equal to the depth of the deepest point (for planes, the smaller of the two sides) and the normal along the plane normal with the documented orientation. Transforming a plane or half-space by a rigid motion gives the plane or half-space through the transformed points.',
  ['inputs'], 'all sizes, poses and plane parameters, degenerate orientations included',
  'Tests sample a few aligned poses; special-case branches (parallel axes, both-sided planes) are reached by measure-zero inputs.',
  [D + 'primitive_shape_algorithm/halfspace-inl.h', D + 'primitive_shape_algorithm/plane-inl.h', I + 'geometry/shape/utility-inl.h', I + 'geometry/shape/halfspace-inl.h', I + 'geometry/shape/plane-inl.h'],
  [('per-shape closed forms', D + 'primitive_shape_algorithm/')])

p('C11', 'Closed-form sphere, capsule, box and cylinder queries are exact',
  'The dedicated sphere-sphere, sphere-capsule, sphere-box, sphere-cylinder, capsule-capsule and sphere-triangle routines report intersection exactly when the solids intersect, with depth, normal direction (from the first to the second object) and nearest points equal to those of the closed-form geometry, for every pose; their collision and distance variants agree with each other.',
  ['inputs'], 'all sizes and poses, concentric and touching configurations included',
  'Tests sample poses; each branch (face/edge/corner region, inside/outside, degenerate) needs its own inputs.',
  [D + 'primitive_shape_algorithm/sphere_sphere-inl.h', D + 'primitive_shape_algorithm/sphere_capsule-inl.h', D + 'primitive_shape_algorithm/sphere_box-inl.h', D + 'primitive_shape_algorithm/sphere_cylinder-inl.h', D + 'primitive_shape_algorithm/capsule_capsule-inl.h', D + 'primitive_shape_algorithm/sphere_triangle-inl.h'],
  [('closed-form routines', D + 'primitive_shape_algorithm/')])

p('C12', 'Support functions return an extreme point of the posed shape',
  'For every convex primitive, every pose and every direction, the support point used by both narrowphase solvers belongs to the shape and maximises the dot product with the direction over the shape.',
  ['inputs'], 'all shape parameters, poses and directions',
  'A support function that is wrong for some octant or along an axis yields wrong answers only for separations determined by that octant.',
  [D + 'convexity_based_algorithm/minkowski_diff-inl.h', D + 'convexity_based_algorithm/gjk_libccd-inl.h', I + 'geometry/shape/convex-inl.h'],
  [('getSupport', D + 'convexity_based_algorithm/minkowski_diff-inl.h'), ('libccd support callbacks', D + 'convexity_based_algorithm/gjk_libccd-inl.h')])

p('C13', 'Interval and Taylor-model arithmetic encloses the exact result',
  'Each interval operation returns an interval that contains the exact result for every choice of operands inside the operand intervals, and for addition, subtraction, multiplication, scaling, intersection and hull exactly the smallest such interval. Each Taylor-model operation encloses the exact function value for every time in its time interval.',
  ['inputs'], 'all operand intervals (any sign combination), all scalars, all time intervals',
  'Tests do not exercise interval arithmetic sign cases individually; an enclosure that is too narrow only shows as a missed collision in rare continuous queries.',
  [I + 'math/motion/taylor_model/'], [('interval arithmetic', I + 'math/motion/taylor_model/interval-inl.h'), ('Taylor models', I + 'math/motion/taylor_model/taylor_model-inl.h')])

p('C14', 'Interpolated motions start and end at the given poses',
  'A motion constructed between two poses yields the start pose at time zero and the end pose at time one, moves the reference point linearly in between (or along the stated screw axis), and integrating to a time depends only on that time, not on earlier integrations.',
  ['inputs', 'histories'], 'all pose pairs, all times in [0,1], all sequences of integrate calls',
  'Tests integrate forwards over a few motions only.',
  [I + 'math/motion/'], [('integrate', I + 'math/motion/interp_motion-inl.h'), ('integrate', I + 'math/motion/screw_motion-inl.h'), ('integrate', I + 'math/motion/translation_motion-inl.h')])

p('C15', 'Octree cells tile their parent and octree traversals honour occupancy',
  'The eight boxes computed for the children of an octree cell are exactly the eight octants of the parent\'s box, indexed as the octree library indexes them. Octree traversals prune a cell only when it is free (or absent and treated as free), when its box does not overlap the other object, or when the request is satisfied, and otherwise visit every existing child.',
  ['inputs', 'configurations'], 'all octrees (any depth, occupancies, unknown cells) against all other geometry and all requests',
  'Octree tests use one map with uniform thresholds.',
  [I + 'geometry/octree/octree-inl.h', TR + 'octree/octree_solver-inl.h', BP + 'broadphase_dynamic_AABB_tree-inl.h', BP + 'broadphase_dynamic_AABB_tree_array-inl.h'],
  [('computeChildBV', I + 'geometry/octree/octree-inl.h'), ('OcTreeSolver recursion', TR + 'octree/octree_solver-inl.h')])

p('C16', 'A broadphase query stops as soon as the callback asks to stop',
  'In every broadphase manager and every kind of query (all pairs, one object, another manager; collision and distance), once the user callback returns true it is not called again during that query.',
  ['inputs', 'histories', 'configurations'], 'all managers, all populations, every point at which the callback may ask to stop',
  'Tests never return true from a callback in the middle of a query with several remaining candidates for each of the managers.',
  [BP], [('propagated stop flag', BP)], ['user callback invocations'])

p('C17', 'Broadphase registration bookkeeping stays consistent',
  'After registering, unregistering and clearing objects in any order, size and emptiness agree with the set of registered objects, clearing forgets every object in every internal container, and unregistering removes every trace of the object, so later queries never touch it.',
  ['histories'], 'all sequences of register/unregister/update/clear on every manager',
  'Tests register once, update and query; they rarely unregister, clear or ask for emptiness.',
  [BP], [('register/unregister/clear/size/empty', BP)])

p('C18', 'Dynamic-tree broadphase queries descend into every overlapping subtree',
  'The dynamic AABB tree managers report every pair of registered leaves unless an enclosing box pair on the way was disjoint (or, for distance, farther than the current minimum) or the callback already asked to stop; self queries consider both subtrees and their cross pairs, and no object is paired with itself.',
  ['inputs', 'histories'], 'all trees and all box configurations',
  'A lost subtree only shows in scenes in which the only colliding pair is below it.',
  [BP + 'broadphase_dynamic_AABB_tree-inl.h', BP + 'broadphase_dynamic_AABB_tree_array-inl.h'],
  [('collisionRecurse, selfCollisionRecurse, distanceRecurse, selfDistanceRecurse', BP)])

p('C19', 'Mesh building follows its protocol and reports misuse',
  'Mesh construction calls out of sequence are refused with the out-of-sequence (or, for replace/update without a previous frame, the previous-frame) error code and leave the model unchanged; successful calls return OK and move the model to the documented next state. Replacing or updating with a vertex count different from the model\'s is reported as incorrect data.',
  ['histories'], 'all sequences of begin/add/end/replace/update calls with all argument values',
  'Tests follow the correct protocol; only a few wrong orders are tried.',
  [I + 'geometry/bvh/BVH_model-inl.h', I + 'geometry/bvh/BVH_internal.h'], [('build_state', I + 'geometry/bvh/BVH_model-inl.h')], [],
  [('build_state', 'current phase of model construction', I + 'geometry/bvh/BVH_model-inl.h')])

p('C20', 'Mesh models own their memory: deep copies, no overflow, full release',
  'Building a mesh never writes outside its vertex, triangle or node storage whatever the call sequence; copying a mesh yields an independent model sharing no storage with the original, and destroying or rebuilding a model releases its storage exactly once.',
  ['histories', 'inputs'], 'all build sequences, vertex/triangle counts and copies',
  'No test runs under a memory checker with boundary sizes; overflows by one element go unnoticed.',
  [I + 'geometry/bvh/BVH_model-inl.h'], [('capacity tests, copy constructor, destructor', I + 'geometry/bvh/BVH_model-inl.h')])

p('C21', 'Queries keep no hidden mutable state',
  'Collision, distance and continuous queries on shared geometries from different threads with separate requests and results are independent: the library keeps no mutable global, function-static or geometry-embedded state that a query writes.',
  ['schedules'], 'all interleavings of queries from several threads on shared geometry and managers\' const queries',
  'No test runs queries concurrently.',
  [I, 'src/'], [('no mutable statics; const interfaces', I)])

p('C22', 'Request parameters reach the narrowphase solver and the traversal',
  'The solver chosen by the request is the one that is used, with the tolerances, cached guess and flags of that request, and every traversal is set up with the caller\'s geometries, poses, request and result before it runs.',
  ['configurations', 'inputs'], 'all requests and all geometry pairs, both solvers',
  'Default tolerances make a dropped parameter invisible.',
  [N + 'collision-inl.h', N + 'distance-inl.h', D + 'collision_func_matrix-inl.h', D + 'distance_func_matrix-inl.h', TR],
  [('solver set-up', N + 'collision-inl.h'), ('initialize', TR)])

p('C23', 'Every template declared as provided by the library is provided',
  'Every class or function template instantiation that the public headers declare as provided externally is actually instantiated in the library, for the same arguments, so that any program using the public headers links.',
  ['programs'], 'all programs that use any declared instantiation',
  'Tests link only the instantiations they happen to use.',
  [I, 'src/'], [('explicit instantiation', 'src/')])

p('C24', 'A collision object\'s pose, quaternion and world box stay consistent',
  'After any sequence of pose changes, a collision object\'s rotation, translation and quaternion describe the pose last set, and recomputing its world box gives a box that contains the posed local box (exactly the translated local box when the object is not rotated).',
  ['histories', 'inputs'], 'all poses and all sequences of pose setters',
  'Tests set full transforms only.',
  [N + 'collision_object-inl.h'], [('computeAABB and setters', N + 'collision_object-inl.h')])

p('C25', 'Result containers keep their order, bounds and reset semantics',
  'The ordering relations used for contacts, cost sources, broadphase endpoints and traversal queues are strict weak orders consistent with their documented keys; the list of cost sources never exceeds its limit and always keeps the most expensive ones; clearing a result makes it equal to a new one; a distance result only ever decreases and keeps the features of its minimum.',
  ['inputs', 'histories'], 'all values of the compared fields, all update sequences',
  'Tests compare a few values; tie and antisymmetry cases are not enumerated.',
  [N + 'contact-inl.h', N + 'cost_source-inl.h', N + 'collision_result-inl.h', N + 'distance_result-inl.h', N + 'continuous_collision_result-inl.h'],
  [('operator<, addCostSource, update, clear', N)])

p('C26', 'Mesh trees partition their primitives and enclose them',
  'Building a mesh tree splits each node\'s primitive range into two non-empty consecutive ranges handled by its two children, single primitives become leaves carrying that primitive\'s index, and every primitive is in exactly one leaf. Every node\'s volume is fitted to all vertices (and, for moving meshes, previous vertices) of its range, or when refitted bottom-up to the union of its children.',
  ['inputs', 'histories'], 'all meshes and point clouds, all splitting outcomes, all refits',
  'Degenerate splits and refits are reached by few meshes.',
  [I + 'geometry/bvh/BVH_model-inl.h', I + 'geometry/bvh/detail/BV_fitter-inl.h', I + 'geometry/bvh/detail/BV_splitter-inl.h'],
  [('recursiveBuildTree', I + 'geometry/bvh/BVH_model-inl.h'), ('refit', I + 'geometry/bvh/BVH_model-inl.h')])

p('C27', 'Dynamic AABB tree nodes stay linked and enclose their children',
  'Inserting, removing and updating leaves keeps parent/child links mutually consistent, every inner node\'s box the union of its children\'s boxes along the changed path, and the leaf count exact.',
  ['histories'], 'all sequences of insert/remove/update',
  'Only end-to-end queries are tested; a stale ancestor box shows only for objects that moved far.',
  [BP + 'detail/hierarchy_tree-inl.h', BP + 'detail/hierarchy_tree_array-inl.h'], [('insertLeaf/removeLeaf', BP + 'detail/hierarchy_tree-inl.h')])

p('C28', 'Spatial codes interleave coordinates bit by bit',
  'The Morton code of a point interleaves the bits of its quantised coordinates so that each coordinate bit lands at its own position and codes are monotone in each coordinate, and coordinates are quantised relative to the given box.',
  ['inputs'], 'all points and boxes, every code width',
  'Tests check the codes of a few points.',
  [BP + 'detail/morton-inl.h', 'src/broadphase/detail/morton.cpp'], [('bit spreading', BP + 'detail/morton-inl.h')])

p('C29', 'Distance queries prune and stop only within the requested tolerance',
  'A distance traversal prunes or stops only when the lower bound at hand is at least the current minimum distance up to the absolute and relative error of the request, and the minimum over all tested primitive pairs is what is reported.',
  ['inputs', 'configurations'], 'all meshes and shapes, all error settings',
  'Tests use zero tolerances only.',
  [TR + 'distance/'], [('canStop', TR + 'distance/'), ('leafTesting', TR + 'distance/')])

p('C30', 'Default broadphase callbacks honour completion',
  'The provided collision, distance and continuous-collision broadphase callbacks run the narrowphase on the given pair unless they are already done, report done exactly when the request is satisfied (or the distance is non-positive), and never run the narrowphase after being done.',
  ['histories'], 'all callback sequences',
  'Tests check one or two sequences.',
  [BP + 'default_broadphase_callbacks.h'], [('DefaultCollisionFunction etc.', BP + 'default_broadphase_callbacks.h')])

p('C31', 'Object-level and geometry-level queries agree',
  'Querying two collision objects is the same as querying their geometries with their current poses, for collision, distance and continuous collision, in the same order and with the same request.',
  ['inputs'], 'all objects, requests',
  'Only a few pairs are queried both ways.',
  [N + 'collision-inl.h', N + 'distance-inl.h', N + 'continuous_collision-inl.h'], [('overloads', N)])

p('C32', 'Iterative solvers stop after their iteration limit',
  'Every iterative numerical procedure (GJK, EPA, penetration search, conservative advancement, sampled continuous collision) terminates after at most the configured number of iterations for every input.',
  ['inputs'], 'all shapes, poses, tolerances, NaN included',
  'Termination for all inputs cannot be sampled.',
  [D + 'convexity_based_algorithm/', N + 'continuous_collision-inl.h'], [('iteration counters', D + 'convexity_based_algorithm/')])

p('C33', 'Sphere-swept rectangle distances and fits are conservative',
  'The distance between rectangle swept spheres is a lower bound of the distance of the contained geometry, and fitted volumes contain the fitted points.',
  ['inputs'], 'all volumes and point sets', 'Random tests only sample.',
  [I + 'math/bv/RSS-inl.h', I + 'math/bv/utility-inl.h'], [('rectDistance', I + 'math/bv/RSS-inl.h'), ('fit', I + 'math/bv/utility-inl.h')])

p('C34', 'GJK/EPA results are accurate to the requested tolerance',
  'For every pair of convex shapes the general solvers report intersection exactly when the shapes intersect beyond the tolerance, and distances and penetration depths within the tolerance.',
  ['inputs'], 'all convex shapes and poses', 'Random tests only sample.',
  [D + 'convexity_based_algorithm/', D + 'gjk_solver_libccd-inl.h', D + 'gjk_solver_indep-inl.h'], [('GJK, EPA', D + 'convexity_based_algorithm/')])

p('C35', 'Continuous collision never reports contact-free motion that collides',
  'Conservative advancement reports a time of contact not later than the true first contact, for every pair of motions.',
  ['inputs'], 'all motions and geometries', 'Random tests only sample.',
  [N + 'continuous_collision-inl.h', TR + 'distance/conservative_advancement_stack_data.h'], [('motion bounds', I + 'math/motion/')])

p('C36', 'Sweep and hash broadphases report every overlapping pair exactly once',
  'After any history of updates, the sweep-and-prune, interval-tree and spatial-hash managers report each pair of objects with overlapping boxes exactly once.',
  ['histories', 'inputs'], 'all histories of insertions, removals, updates and all box configurations', 'Random scenes only sample.',
  [BP + 'broadphase_SaP-inl.h', BP + 'broadphase_SSaP-inl.h', BP + 'broadphase_interval_tree-inl.h', BP + 'broadphase_spatialhash-inl.h'], [('endpoint lists, hash cells', BP)])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
