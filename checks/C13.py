"""Interval and Taylor-model arithmetic: value-flow normal forms against exact interval arithmetic."""
import os, e3
from common import VERIF
def run(r):
    e3.report_file(r, os.path.join(VERIF, 'probes', 'c13_interval.cpp'), min_pairs=55)
    r.cov['explanation'] = 'every operation of Interval, IVector3, IMatrix3, TaylorModel, TVector3 and TMatrix3, inlined and put in normal form, equals the exact interval operation (min/max of corner products) for operands of every sign class; Taylor coefficients equal the expansion and the remainder the Lagrange bound'
