"""C14: tabu search."""
import os
from .search import *
from pyver.values import PQueue, PSet

ONLY = os.environ['ONLY'].split(';') if 'ONLY' in os.environ else None


def in_queue(q):
    """membership in a queue (pos: where a label was put last)"""
    h, t, f, pos = [q.d[k] for k in ('head', 'tail', 'fn', 'pos')]

    def m(a):
        if same(h, t):
            return BoolVal(False)
        i = Select(pos, a)
        v = f(i)
        return And(zi(h) <= i, i < zi(t), eq(v, a) if v is not POISON else BoolVal(False))
    return m


class TabuInv(SearchInv):
    def cand(self, a):
        env = self.env
        return And(env['isl'](a), a != env['x'], Not(Select(env['PR'], a)))

    def queues(self):
        return [L.o for L in self.locs.values() if L.k is None and isinstance(L.o, PQueue)]

    def sets(self):
        return [L.o for L in self.locs.values() if L.k is None and isinstance(L.o, PSet)]

    def more(self, k):
        out = []
        a, i = bvar(Lbl, 'l'), bvar(I_, 'q')
        for q in self.queues():
            def held(k, q=q):
                h, t, f, pos = [q.d[c] for c in ('head', 'tail', 'fn', 'pos')]
                if same(h, t):
                    return BoolVal(True)
                return z3.ForAll([i], Implies(And(zi(h) <= i, i < zi(t)), And(self.cand(f(i)), Select(pos, f(i)) == i)))
            out.append(('the tabu list holds candidates, each once', held, False))
            for s in self.sets():
                out.append(('the tabu set is the set of the tabu list', lambda k, q=q, s=s: z3.ForAll([a], zb(s.member(a)) == in_queue(q)(a)), False))
        return out

    def start_iteration(self, E, k):
        super().start_iteration(E, k)
        self.env['ghost'].d['tabu'] = tuple(frozenq(E, q) for q in self.queues())
        self.env['ghost'].d['before'] = self.P0

    def leaving(self, E, k):
        super().leaving(E, k)
        self.env['ghost'].d['tabu'] = ()


class FrozenQ:
    pass


def frozenq(E, q):
    o = FrozenQ()
    o.d = dict(q.d)
    return o


def proposal(env):
    """what is scored next: a tabu node is neither added nor removed while a candidate outside the tabu list is there"""
    def check(E, graph):
        x = env['x']
        for q in env['ghost'].d.get('tabu', ()):
            P0, P1, m = env['ghost'].d['before'], sel(graph.d['_graph'].d['preds'], x), in_queue(q)
            a, b, w = bvar(Lbl, 'a'), bvar(Lbl, 'b'), bvar(Lbl, 'w')
            only_removed = z3.ForAll([b], Implies(Select(P1, b), Select(P0, b)))
            E.oblige(z3.ForAll([a, w], Implies(And(m(a), Or(And(Select(P1, a), Not(Select(P0, a))), And(Select(P0, a), Not(Select(P1, a)), only_removed)),
                                                   env['isl'](w), w != x, Not(Select(env['PR'], w))), m(w))),
                     'a node on the tabu list is proposed only when no other candidate is available', assume=False)
    return check


def prepare(env):
    env['on_score'] = (proposal(env),)


TABU = [(None, None, 'default tabu'), (lim('tabu_length', 1), lim('tabu_rules_duration', 1), 'given tabu')]
NOTE = ('contracts/search.py, c14.py: estimate_parents with TabuSearch, for every data set, node, prior edges, random choice and setting (default or given tabu lengths >= 1, with and without max_parents and patience). '
        'Invariant of the search loop as for C13, plus: the tabu list holds candidates, each once, and the tabu set is the set of the tabu list; every queue.get is proved to find an element, so nothing waits; '
        'what is proposed is checked at every evaluation of the score. get_score_from_graph is used through its contract. Scores are real numbers; random.choice returns any element.')


def run(ctx):
    verify_search(ctx, 'TabuSearch', TabuInv, only=ONLY, prepare=prepare,
                  more=[(dict(tabu_length=l, tabu_rules_duration=d), t) for l, d, t in TABU])
