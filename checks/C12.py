"""C12: support functions of the convex iterations, decided by value-numbering against reference formulas."""
import os, e4
from common import VERIF


def run(r):
    e4.report_file(r, os.path.join(VERIF, 'probes', 'c12_support.cpp'), min_pairs=18, events=False)
    r.cov['explanation'] = ('support functions of the libccd backend (world frame, all shapes) and of the built-in '
                            'backend (local frame and Minkowski difference), Convex::findExtremeVertex without neighbour '
                            'search, compared with the textbook support point of each shape over all inputs; the '
                            'libccd quaternion primitives and the result of the pose-to-quaternion conversion are opaque')
