"""Motions between two poses: value-flow normal forms against the closed-form motion."""
import os, e3
from common import VERIF
def run(r):
    e3.report_file(r, os.path.join(VERIF, 'probes', 'c14_motion.cpp'), min_pairs=20)
    r.cov['explanation'] = 'every field set by the constructors and the pose produced by integrate(t) from arbitrary fields equal the closed-form motion (Eigen is trusted for quaternion/angle-axis conversions); a second integration is shown independent of the first'
