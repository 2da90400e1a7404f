"""Shapes against half-spaces and planes: the closed forms."""
import os, e3, e4
from common import VERIF
def P(x): return os.path.join(VERIF, 'probes', x)
FAM = [['-DCHK=10', '-DFAM=%d' % i] for i in range(1, 7)]
def run(r):
    e4.report_file(r, P('c10_halfspace.cpp'), min_pairs=18, defs=['-DCHK=10', '-DFAM=0'], events=False, fallback=FAM)
    for d in FAM: e4.report_file(r, P('c10_halfspace.cpp'), min_pairs=10, defs=d, events=False, only={'cone_pl'})
    e3.report_file(r, P('c10_transform.cpp'), min_pairs=6)
    r.cov['explanation'] = 'for both solvers, both argument orders, with and without contacts, the half-space/plane specialisations reduce to the same values (answer, number of contacts, normal, position, depth) as closed forms over the pose of the solid and the world half-space; the transform of a half-space/plane is decided separately and is opaque here'
