"""C24: collision objects."""
import os, e4
from common import VERIF
def run(r):
    e4.report_file(r, os.path.join(VERIF, 'probes', 'c30_entry.cpp'), min_pairs=13, defs=['-DCHK=5', '-fstrict-vtable-pointers'], events=False)
    r.cov['explanation'] = ('constructors, pose setters and getters of CollisionObject (rotation, translation, quaternion, world box as functions of the previous state and the argument), computeAABB for rotated and unrotated objects, '
        'and the box of a moving object (hull over its motion of all eight corners of the local box); Taylor-model evaluation is opaque')
