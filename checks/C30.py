"""C30: default broadphase callbacks."""
import os, e4
from common import VERIF
def run(r):
    e4.report_file(r, os.path.join(VERIF, 'probes', 'c30_entry.cpp'), min_pairs=3, defs=['-DCHK=1'])
    r.cov['explanation'] = ('DefaultCollisionFunction, DefaultDistanceFunction and DefaultContinuousCollisionFunction: whether the narrowphase runs, on which pair, with which request and result, '
        'and the returned/stored completion flag equal the reference for every state of the callback data; the narrowphase query is opaque and changes the result arbitrarily')
