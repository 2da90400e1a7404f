"""Oriented and discrete bounding volumes: value-flow normal forms against geometric definitions."""
import os, e3
from common import VERIF
def run(r):
    e3.report_file(r, os.path.join(VERIF, 'probes', 'c07_bv.cpp'), min_pairs=40)
    r.cov['explanation'] = 'each bounding-volume operation is inlined to SSA and its outputs put in decision-diagram normal form; equality with the definition (fifteen separating axes, slab-wise extremes, ball/box containment) is decided for all inputs'
