"""AABB algebra: value-flow normal forms of the AABB operations against independently
written interval-product definitions."""
import os, e3
from common import VERIF
def run(r):
    e3.report_file(r, os.path.join(VERIF, 'probes', 'c06_aabb.cpp'), min_pairs=16)
    r.cov['explanation'] = 'every AABB operation is inlined to loop-free SSA; each output is put in decision-diagram normal form over signs of polynomials in the inputs and compared with the definition, over all boxes (cells = sign regions actually compared leaf by leaf)'
