"""Octree traversals: every child visited, early-outs, pruning and entry points."""
import os, e3, e4
from common import VERIF
def P(x): return os.path.join(VERIF, "probes", x)
def run(r):
    for c in (15, 16):
        e4.report_file(r, P("c15_octree.cpp"), min_pairs=10, defs=["-DCHK=%d" % c])
    r.cov["explanation"] = 'computeChildBV partitions a cell into its eight octants; every recursion visits every existing child with its own box (unless occupancy or a bounding-volume test excludes it), passes the poses, the other object and the right child index through unchanged, and stops as soon as a child reports completion; entry points start at the roots'
