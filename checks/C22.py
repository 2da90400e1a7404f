"""C22: request parameters reach the solver and the traversal."""
import os, e4
from common import VERIF
def run(r):
    P = os.path.join(VERIF, 'probes', 'c30_entry.cpp'); M = os.path.join(VERIF, 'probes', 'c01_matrix.cpp')
    e4.report_file(r, os.path.join(VERIF, 'probes', 'c22_init.cpp'), min_pairs=30, events=False)
    e4.report_file(r, P, min_pairs=6, defs=['-DCHK=2'])
    e4.report_file(r, P, min_pairs=7, defs=['-DCHK=3'])
    e4.report_file(r, P, min_pairs=4, defs=['-DCHK=4', '-fstrict-vtable-pointers'])
    for k in range(1, 5): e4.report_file(r, M, min_pairs=80, defs=['-DCHK=%d' % k])
    r.cov['explanation'] = ('after every set-up of a traversal (shape, mesh, octree; collision, distance, conservative advancement) each field of the traversal equals the reference: models, poses, relative pose, '
        'every request field, result, solver, vertex and triangle arrays, the volume of the shape, cost density; the entry points hand tolerance, cached guess, solver choice, motions and request on unchanged; '
        'every table entry passes its solver, request and result on')
