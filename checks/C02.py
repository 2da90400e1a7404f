"""Contact caps: every leaf test and octree recursion, with the request bound symbolic."""
import os, e3, e4
from common import VERIF
def P(x): return os.path.join(VERIF, "probes", x)
def run(r):
    for n in (1, 2, 3):
        e4.report_file(r, P("c04_leaf.cpp"), min_pairs=14 if n == 1 else 1, only=None if n == 1 else {"shape_shape"}, defs=["-DCHK=2", "-DNCP=%d" % n], events=False)
    e4.report_file(r, P("c15_octree.cpp"), min_pairs=7, only={"shape", "mesh", "oct", "oct_n1", "oct_n2", "oct_nn"}, defs=["-DCHK=2"], events=False)
    r.cov["explanation"] = 'every leaf test (mesh-mesh, mesh-shape, shape-shape, continuous) and every octree recursion is reduced to its event trace with the number of contacts already held and the requested maximum as symbolic integers; on every feasible path the contact count afterwards is at most the maximum, or unchanged when the maximum was already reached'
