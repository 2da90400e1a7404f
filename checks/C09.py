"""Mass properties: value-flow normal forms against closed-form integrals."""
import os, e3
from common import VERIF
def run(r):
    e3.report_file(r, os.path.join(VERIF, 'probes', 'c09_mass.cpp'), min_pairs=14)
    r.cov['explanation'] = 'computeVolume/computeCOM/computeMomentofInertia of each solid, inlined and put in polynomial normal form, equal the closed-form integrals as polynomials in the parameters; meshes and convex polyhedra are compared on arbitrary vertices for a fixed face list that covers triangle and polygon faces'
