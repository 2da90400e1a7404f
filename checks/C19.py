"""C19: protocol of mesh construction."""
import os, e4
from common import VERIF
SRC = os.path.join(VERIF, 'probes', 'c20_mesh.cpp')
def names(kinds):
    import re
    return {n for n in re.findall(r'^//@ (\w+)', open(SRC).read(), re.M) if n.split('_')[0] in kinds}
def run(r):
    e4.report_file(r, SRC, min_pairs=65, only=names({'addv', 'addt', 'adds', 'addst', 'begin', 'end', 'brep', 'bupd', 'set', 'fin'}), defs=['-DCHK=19'], events=False)
    r.cov['explanation'] = ('every construction call of BVHModel, for every build state (symbolic) and the listed sizes: return code, next state, counts, stored vertices and triangles, '
        'and whether the tree is built or refitted and in which order, equal the documented protocol; tree construction itself is opaque')
