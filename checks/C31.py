"""C31: object-level queries equal the geometry-level ones."""
import os, e4
from common import VERIF
P = os.path.join(VERIF, 'probes', 'c30_entry.cpp')
def run(r):
    e4.report_file(r, P, min_pairs=6, defs=['-DCHK=2'])
    e4.report_file(r, P, min_pairs=3, defs=['-DCHK=3'], only={'cc_pose', 'cc_obj', 'cc_cobj'})
    r.cov['explanation'] = ('collide, distance and continuousCollide called with objects, with objects and a solver, with moving objects, or with geometries and poses make the same solver-level call: '
        'geometries, current poses, solver settings, request and result in the same positions; the solver-level query and the motion between two poses are opaque')
