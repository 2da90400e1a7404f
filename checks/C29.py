"""C29: distance traversals prune, stop and report within tolerance."""
import os, e4
from common import VERIF
def run(r):
    P = lambda x: os.path.join(VERIF, 'probes', x)
    e4.report_file(r, P('c29_dist.cpp'), min_pairs=30, events=False)
    e4.report_file(r, P('c15_octree.cpp'), min_pairs=3, only={'dshape', 'dmesh', 'doct'}, defs=['-DCHK=4'])
    r.cov['explanation'] = ('for every distance traversal over meshes and shapes: the lower bound of a node pair is the distance of their two volumes placed as the meshes are, the stopping rule is '
        'c >= min - abs_err and c*(1+rel_err) >= min, a leaf updates the result with the distance, objects, ids and points of exactly its pair and only when smaller, a run starts from the first triangles and moves '
        'the points it found to the world frame once; octree distance recursions as in C18')
