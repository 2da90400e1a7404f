#!/usr/bin/env python3
"""MANIFEST.json from the checks present and the tables below."""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IR = 'static value-flow analysis of optimised LLVM IR'
GVN = IR + ': gated-SSA polynomial normal forms compared with a reference definition (global value numbering)'
N3 = 'Exact over the reals for every input on the analysed type (double); floating-point rounding, NaN inputs and the compiler front end (clang 18 to IR) are outside. The reference definitions in probes/ are trusted.'
EV = IR + ': gated-SSA event-trace normal forms (ordered calls with their arguments under decision diagrams) compared with a reference procedure'
TS = IR + ': stop-protocol typestate over all control-flow paths, with boolean constant propagation from the callback result'
N4 = 'For every input, with the queries named in the probe file (narrow-phase solver answers, bounding-volume tests, octree accessors) as arbitrary functions of their arguments; exact over the reals, one level of each recursion (the recursive call is opaque, so all levels follow by induction). The reference procedures in probes/ are trusted.'
N5 = 'For every build state and all coordinates, at the sizes listed in probes/c20_mesh.cpp (up to 4 vertices and 4 triangles, storage empty, full and with room); bounding volume AABB<double>, the construction code does not depend on it. Building and refitting the tree are opaque (their order is observed). Failing allocations are not analysed.'
META = {
 'C02': (EV, 'other', N4 + ' Bounded: answers of the shape-shape solver with 1 to 3 contact points.'), 'C03': (EV, 'other', N4), 'C04': (EV, 'other', N4), 'C05': (EV, 'other', N4), 'C15': (EV, 'other', N4),
 'C18': (EV, 'other', N4 + ' Octree node classification and box geometry are opaque.'),
 'C16': (TS, 'other', 'All control-flow paths of every query with one callback result fixed to true; loops included without unrolling. Assumes the callback does not itself start another query on the manager.'),
 'C06': (GVN, 'other', N3), 'C07': (GVN, 'other', N3), 'C08': (GVN, 'other', N3), 'C09': (GVN, 'other', N3),
 'C10': (GVN, 'other', N3), 'C11': (GVN, 'other', N3), 'C12': (GVN, 'other', N3), 'C13': (GVN, 'other', N3), 'C14': (GVN, 'other', N3),
 'C01': (EV, 'other', N4), 'C30': (EV, 'other', N4), 'C31': (EV, 'other', N4), 'C22': (EV, 'other', N4),
 'C17': ('effect analysis over the type-checked syntax tree (which method does what to which member, closed over calls) and value-numbering of size and emptiness', 'other', 'Every registration method of every manager, flow-insensitive within a method (that an operation is present on the member, not the condition it runs under) except for the size/empty clauses, which are exact, and the use-after-erase rule, which follows the statement structure.'),
 'C21': ('reachability plus flow-insensitive alias/effect analysis over the type-checked syntax tree', 'other', 'All functions reachable over references and overriders from every collide/distance/continuousCollide; pointer copies between declarations are tracked by declaration (all instances of a member are one), so a write through memory obtained outside these copies (user_data, external libraries) is not seen.'),
 'C23': ('matching of explicit instantiation declarations and definitions, and of member declarations and definitions, in the type-checked program', 'other', 'All public headers and all sources; exact for the declared instantiations. Template functions the headers declare but do not promise (no extern template) are not obligations.'),
 'C29': (EV, 'other', N4),
 'C19': (GVN, 'other', N5), 'C20': (GVN + '; heap blocks modelled in the analysed unit', 'other', N5),
 'C24': (GVN, 'other', N3), 'C25': (GVN, 'other', N3), 'C28': (GVN, 'other', N3),
}
NA = {
 'C32': 'Termination needs the values of iteration counters and floating-point progress measures (NaN included); the loops in question exit on numerical convergence tests, and a syntactic counter rule would also fire on equivalent rewrites, so nothing static in reach decides it.',
 'C33': 'Conservativeness of the rectangle distance and of covariance fits is an inequality between numerical results of eigen-decompositions and nested region case splits; no normal form is available to compare with.',
 'C34': 'Accuracy of GJK/EPA is a numerical convergence property over all shapes; it has no structural clause beyond the support functions (C12) and parameter passing (C22), which are decided separately.',
 'C35': 'Whether the advancement step never overshoots depends on numerical motion bounds for arbitrary motions; the structural part (end poses of motions) is C14.',
 'C36': 'Completeness of endpoint sweeps and hash cells depends on the numerical order of stored endpoints after arbitrary update histories; the structural parts (stop protocol, registration) are C16 and C17.',
}
PENDING = 'No check has been completed for this property yet.'
def main():
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    checks = []; na = []
    for p in props:
        i = p['id']
        if i in META and os.path.exists(V + '/checks/%s.py' % i) and i not in NA:
            t, l, n = META[i]
            checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check ' + i, 'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': l, 'level_note': n})
        else: na.append({'property': i, 'reason': NA.get(i, PENDING)})
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'lib\'); import common; common.tool(); common.tool(\'astfacts\')"', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')
main()
