"""Cost sources: who may add one, with what density and volume."""
import os, e3, e4
from common import VERIF
def P(x): return os.path.join(VERIF, "probes", x)
def run(r):
    e4.report_file(r, P("c04_leaf.cpp"), min_pairs=14, defs=["-DCHK=3"])
    e4.report_file(r, P("c15_octree.cpp"), min_pairs=7, only={"shape", "mesh", "oct", "oct_n1", "oct_n2", "oct_nn"}, defs=["-DCHK=3"])
    r.cov["explanation"] = 'the ordered trace of addCostSource calls (box, density, cap) and of contacts of every leaf test and octree recursion, as a decision diagram over the request flags, occupancy classes and opaque geometric queries, equals the reference procedure: a cost source only when costs are enabled, neither side free and the volumes overlap; a contact only when both sides are occupied'
