"""C13: hill climbing."""
import os
from .search import *

NOTE = ('contracts/search.py, c13.py: HillClimbing.optimize_structure for every data set, node, prior edges, random choice and setting (with and without max_parents and patience). '
        'The search loop is cut with an invariant over the graph (edges lead into the node, prior parents kept, score at least that of the prior parents, at most max_parents parents, '
        'iteration and patience counters as ghost state); get_score_from_graph is used through its contract (a function of the set of parents, verified under C18). '
        'Scores are real numbers; random.choice returns any element.')
ONLY = os.environ['ONLY'].split(';') if 'ONLY' in os.environ else None


def run(ctx):
    verify_search(ctx, 'HillClimbing', SearchInv, only=ONLY)
