"""Descents of a pair of bounding volume hierarchies."""
import os, e3, e4
from common import VERIF
def P(x): return os.path.join(VERIF, "probes", x)
def run(r):
    e4.report_file(r, P("c05_traverse.cpp"), min_pairs=4)
    r.cov["explanation"] = 'one unrolled step of each recursion over two hierarchies: the order and arguments of bounding-volume tests, leaf tests and recursive calls equal the reference descent (prune only on a bounding-volume test; recurse into both children of one side; nearer pair first and re-tested for distance)'
