"""Queries of the dynamic AABB trees descend into every overlapping subtree."""
import os, e4
from common import VERIF
def P(x): return os.path.join(VERIF, "probes", x)
def run(r):
    e4.report_file(r, P("c18_tree.cpp"), min_pairs=40)
    r.cov["explanation"] = ('one unrolled step of every recursion of the linked and the array tree (node/node, node/object, self, node/octree cell; collision and distance; rotated and translated octrees) and all queries of both managers: '
        'box tests, callbacks, recursive calls and their arguments equal the reference descent; recursion below the first level is opaque (induction over tree depth); box geometry and the user callback are opaque')
