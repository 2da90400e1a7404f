"""C25: result containers and the orders of queues, by symbolic summaries of the library's own functions."""
import os, e4
from common import VERIF
def run(r):
    e4.report_file(r, os.path.join(VERIF, 'probes', 'c25_results.cpp'), min_pairs=15, defs=['-DCHK=1'], events=False)
    e4.report_file(r, os.path.join(VERIF, 'probes', 'c25_results.cpp'), min_pairs=3, defs=['-DCHK=2'], events=False, only={'con_add', 'cost_get', 'con_clear'})
    r.cov['explanation'] = ('orders of contacts, cost sources, sweep end points, interval end points and traversal queue entries as functions of their fields; what constructors and clear() leave behind; '
        'which distance updates win (strictly smaller only) and which fields they carry; cost-source limit for three insertions in any cost order and limits 0..3 (std::set replaced by a model with its contract)')
