"""Contents of contacts and distance results."""
import os, e3, e4
from common import VERIF
def P(x): return os.path.join(VERIF, "probes", x)
def run(r):
    e4.report_file(r, P("c04_leaf.cpp"), min_pairs=14, defs=["-DCHK=4"])
    e4.report_file(r, P("c15_octree.cpp"), min_pairs=7, only={"shape", "mesh", "oct", "oct_n1", "oct_n2", "oct_nn", "dshape", "dmesh", "doct"}, defs=["-DCHK=4"])
    r.cov["explanation"] = 'objects, feature ids, position, normal and depth handed to addContact (and the fields of DistanceResult after the distance leaf tests) by every leaf test equal the reference, for arbitrary node contents, poses and solver answers (solver and geometric queries are opaque functions of their arguments)'
