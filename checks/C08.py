"""Bounding volumes of shapes."""
import os, e3
from common import VERIF
def run(r):
    e3.report_file(r, os.path.join(VERIF, 'probes', 'c08_shapebv.cpp'), min_pairs=40)
    r.cov['explanation'] = 'computeBV/computeLocalAABB/getBoundVertices of every shape, inlined and put in normal form over arbitrary poses and sizes, equal the support-function bounds of the solid (sets of bounding vertices are compared as sets; tighter exact boxes are accepted as alternatives)'
