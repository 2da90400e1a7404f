"""C11: closed-form routines for spheres, capsules, boxes, cylinders and triangles."""
import os, e4
from common import VERIF
P = os.path.join(VERIF, 'probes', 'c11_prims.cpp')


def run(r):
    for f in (2, 4, 1):
        e4.report_file(r, P, min_pairs=18, defs=['-DFAM=%d' % f], events=False, skip={'sy', 'sb_d'} if f == 1 else set())
    for f in (3, 5, 6):
        e4.report_file(r, P, min_pairs=5, defs=['-DFAM=%d' % f], events=False, only={'cc_d', 'st', 'sc', 'sy_d', 'sb1', 'sb6'})
    e4.report_file(r, P, min_pairs=2, defs=['-DFAM=1', '-DPROJ_OPAQUE=1'], events=False, only={'std', 'stdp'})
    r.cov['explanation'] = ('for both solvers, both argument orders, with and without outputs: answer, normal, position and depth, '
                            'distance and nearest points of the closed-form pairs equal closed forms, for any sizes and positions '
                            'and each of several rational rotations of the second shape (boxes octant by octant)')
