"""C20: storage of mesh models."""
import os, e4
from common import VERIF
def run(r):
    e4.report_file(r, os.path.join(VERIF, 'probes', 'c20_mesh.cpp'), min_pairs=72, defs=['-DCHK=20'], events=False)
    r.cov['explanation'] = ('array allocation is modelled block by block: after every construction call, copy, assignment and destruction each block is held by exactly one pointer or released exactly once, '
        'every array has room for what the model says it holds, nothing beyond the vertex storage is written, and copies have equal contents in storage of their own')
