"""C01: type codes and the three routine tables, entry by entry."""
import os, e4
from common import VERIF
def run(r):
    src = os.path.join(VERIF, 'probes', 'c01_matrix.cpp')
    e4.report_file(r, src, min_pairs=80, defs=['-DCHK=1'])
    e4.report_file(r, src, min_pairs=110, defs=['-DCHK=2'])
    e4.report_file(r, src, min_pairs=140, defs=['-DCHK=3'])
    e4.report_file(r, src, min_pairs=190, defs=['-DCHK=4'])
    e4.report_file(r, src, min_pairs=19, defs=['-DCHK=5'], events=False)
    src = os.path.join(VERIF, 'probes', 'c30_entry.cpp')
    e4.report_file(r, src, min_pairs=16, defs=['-DCHK=3'], skip={'cc_gg','cc_bb','cc_bg','cc_gb','cc_pose','cc_obj','cc_cobj'})
    r.cov['explanation'] = ('every entry of the collision, distance and conservative-advancement tables built by the library is called on opaque geometries; the traversal it sets up (types, geometries, '
        'poses, solver, request, result, in order) equals the reference for that ordered pair of types, and the entry points select entry [type of first][type of second] (mesh first for shape-mesh pairs); '
        'each geometry class reports its own node and object type')
