"""The score-based searches of one node: pre-state, contract of the score, invariant of the search loop, post-condition."""
from .common import *
from pyver.values import Unsupported
from pyver.loops import Inv


def removable(env, i, j):
    return env['rem'](z(i), z(j))


def search_state(E, I, cls, opt, limits):
    """the arguments of a search by an optimizer of class opt for a node of an arbitrary data set with arbitrary prior edges; the structure has no edges while a search runs (C16)"""
    sp, env = sample_path(E, I, edges=False)
    est = estimator(E, I, cls, sp, env)
    n, lf, lg, isl, rem = [env[k] for k in 'n lf lg isl rem'.split()]
    x = env['x'] = E.fresh(Lbl, 'node')
    E.assume(isl(x))
    j = env['j'] = lg(x)
    # a prior edge joins two different nodes
    E.assume(forall(lambda i: imp(inrange(i, n), rem(i, i)), I_, pat=lambda i: rem(i, i)))
    PR = env['PR'] = E.fresh(SetL, 'prior')
    E.assume(forall(lambda a: Select(PR, a) == And(isl(a), Not(rem(lg(a), j))), Lbl, pat=lambda a: Select(PR, a)))
    E.assume(Card(PR) >= 0)
    N = env['N'] = E.fresh(SetL, 'allnodes')
    E.assume(forall(lambda a: Select(N, a) == isl(a), Lbl, pat=lambda a: Select(N, a)))
    env['SCORE'] = Function(E.name('SCORE'), SetL, R)
    at = dict(node_id=x, optimizer={'TabuSearch': 'tabu', 'HillClimbing': 'hill'}[opt])
    for k, v in limits.items():
        at[k] = v(E) if callable(v) else v
        env[k] = at[k]
    env['ghost'] = inst(E, I, opt)
    return est, at, env


def lim(name, lo=None):
    def f(E):
        c = E.fresh(I_, name)
        if lo is not None:
            E.assume(c >= lo)
        return c
    return f


def score_contract(env):
    """get_score_from_graph(graph, node): a function of the parents of the node in the graph; the graph is left as it was (C18)"""
    def contract(E, self=None, graph=None, node_id=None, **kw):
        E.oblige(veq(node_id, env['x']), 'the searched node is scored')
        g = graph.d['_graph']
        a, y = bvar(Lbl, 'l'), bvar(Lbl, 'l')
        E.oblige(z3.ForAll([a], Implies(zb(g.edge(a, env['x'])), env['isl'](a))), 'the parents that are scored are nodes of the data set')
        E.oblige(z3.ForAll([a], Implies(zb(g.node(a)), env['isl'](a))), 'the graph that is scored has nodes of the data set only')
        g.set(nodes=env['N'])       # scoring puts every variable into the graph
        for c in ('_aggregated_info_about_nodes_parents', '_time_scalar_indexing_structure', '_transition_scalar_indexing_structure', '_time_filtering', '_transition_filtering', '_p_combs_structure'):
            graph.set(**{c: Opaque('cache')})
        env['ghost'].d['net'] = graph
        for f in env.get('on_score', ()):
            f(E, graph)
        same_set(E, sel(g.d['preds'], env['x']), env['PR'])
        return env['SCORE'](sel(g.d['preds'], env['x']))
    return contract


def set_difference(E, a, b):
    """a finite set with more members than b has a member that is not in b"""
    w = E.fresh(Lbl, 'outside')
    E.hints = E.hints + [w]
    E.assume(Or(Card(a) <= Card(b), And(Select(a, w), Not(Select(b, w)))))


def same_set(E, a, b):
    """sets with the same members are equal"""
    w = E.fresh(Lbl, 'differ')
    E.assume(Or(a == b, Select(a, w) != Select(b, w)))


def net(env):
    """the network graph the search works on"""
    g = env['ghost'].d.get('net')
    if g is None:
        raise Unsupported('nothing is scored before the search loop')
    return g


class SearchInv(Inv):
    merging = True

    def __init__(self, env):
        self.env = env
        self.phase = 'entry'

    def begin(self, I, f, it):
        self.I, self.f, self.it, self.phase = I, f, it, 'entry'
        self.E = I.E
        for o in I.E.objs:
            if isinstance(o, PSet) and o.d['a'] is not None:
                same_set(I.E, o.d['a'], self.env['PR'])

    def graph(self):
        return net(self.env).d['_graph']

    def havoced(self, E):
        self.phase = 'start'
        self.g = E.fresh(I_, 'stalled')
        E.assume(self.g >= 0)
        self.c = E.fresh(I_, 'iterations_done')
        E.assume(self.c >= 0)

    def start_iteration(self, E, k):
        self.phase = 'body'
        self.P0 = sel(self.graph().d['preds'], self.env['x'])
        set_difference(E, self.P0, self.env['PR'])

    def before_end(self, E, k):
        same_set(E, self.P(), self.P0)

    def count(self):
        """iterations completed so far"""
        return IntVal(0) if self.phase == 'entry' else self.c if self.phase == 'start' else self.c + 1

    def leaving(self, E, k):
        """the search stops early only when there is nothing to try or the patience is exceeded"""
        env = self.env
        if self.phase == 'body':
            same_set(E, self.P(), self.P0)
        w = bvar(Lbl, 'l')
        stop = z3.ForAll([w], Implies(And(env['isl'](w), w != env['x']), Select(env['PR'], w)))
        if env.get('max_parents') is not None:
            stop = Or(stop, Card(env['PR']) >= env['max_parents'])
        if env.get('patience') is not None:
            stop = Or(stop, self.stalled() > env['patience'])
        E.oblige(stop, 'the search stops before the iteration limit only without candidates or when the patience is exceeded', assume=False)

    def stalled(self):
        """iterations in a row, up to now, that did not improve the score"""
        if self.phase == 'entry':
            return IntVal(0)
        if self.phase == 'start':
            return self.g
        S = self.env['SCORE']
        return If(S(self.P()) > S(self.P0), IntVal(0), self.g + 1)

    def P(self):
        return sel(self.graph().d['preds'], self.env['x'])

    def candidates(self, k):
        env = self.env
        x, PR, S, isl = env['x'], env['PR'], env['SCORE'], env['isl']
        a, y = bvar(Lbl, 'l'), bvar(Lbl, 'l')
        gr = self.graph
        out = [
            ('the nodes of the graph', lambda k: z3.ForAll([a], zb(gr().node(a)) == isl(a)), True),
            ('edges lead into the searched node only', lambda k: z3.ForAll([a, y], Implies(zb(gr().edge(a, y)), And(y == x, isl(a), a != x))), True),
            ('the prior parents are kept', lambda k: z3.ForAll([a], Implies(Select(PR, a), zb(gr().edge(a, x)))), True),
            ('the score is at least that of the prior parents', lambda k: S(self.P()) >= S(PR), True),
            ('parents are counted', lambda k: Card(self.P()) >= 0, True),
            ('the iteration limit', lambda k: self.count() <= If(env['iterations_number'] >= 0, env['iterations_number'], IntVal(0)), True),
        ]
        if env.get('max_parents') is not None:
            out.append(('the maximum number of parents', lambda k: Implies(Card(PR) <= env['max_parents'], Card(self.P()) <= env['max_parents']), True))
        if env.get('patience') is not None:
            out.append(('the search goes on only within the patience', lambda k: Or(self.count() == 0, self.stalled() <= env['patience']), True))
        if k is not None:
            out.append(('iterations are counted', lambda k: self.count() == zi(k), True))
        out += self.scalars(k)
        out += self.more(k)
        return out

    def scalars(self, k):
        """what the numeric locals may stand for"""
        S = self.env['SCORE']
        out = []
        for lk, L in self.locs.items():
            if L.k is None or L.k not in L.o.d:
                continue
            v = L.o.d[L.k]
            if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) or isz(v) and v.sort() in (R, I_):
                o, nm = L.o, L.k
                if isz(v) and v.sort() == R:
                    out.append(('%s is the score of the current parents' % nm, lambda k, o=o, nm=nm: self.num(o, nm, lambda t: z3.ToReal(t) == S(self.P()) if t.sort() == I_ else t == S(self.P())), False))
                else:
                    out.append(('%s counts the iterations without improvement' % nm, lambda k, o=o, nm=nm: self.num(o, nm, lambda t: t == self.stalled()), False))
                    out.append(('%s counts the iterations' % nm, lambda k, o=o, nm=nm: self.num(o, nm, lambda t: t == self.count()), False))
                    out.append(('%s is not negative' % nm, lambda k, o=o, nm=nm: self.num(o, nm, lambda t: t >= 0), False))
        return out

    def num(self, o, nm, f):
        v = o.d.get(nm, POISON)
        if v is POISON:
            return BoolVal(True)
        return f(z(v))

    def more(self, k):
        return []

    def variant(self):
        return None if self.it is not None else self.env['iterations_number'] - self.count()


def search_post(E, I, env, out):
    x, PR, S, isl, n = [env[k] for k in 'x PR SCORE isl n'.split()]
    a, b = E.fresh(Lbl, 'a'), E.fresh(Lbl, 'b')
    has = pairs_member(E, I, out, a, b)
    E.oblige(imp(has, And(b == x, isl(a), a != x)), 'every returned edge leads from another node into the searched node')
    E.oblige(imp(Select(PR, a), pairs_member(E, I, out, a, x)), 'every prior edge into the node is returned')
    P = sel(net(env).d['_graph'].d['preds'], x)
    E.oblige(iff(Select(P, a), pairs_member(E, I, out, a, x)), 'the returned parents are those of the final graph')
    E.oblige(S(P) >= S(PR), 'the score of the returned parents is at least that of the prior parents')
    if env.get('max_parents') is not None:
        E.oblige(Implies(Card(PR) <= env['max_parents'], Card(P) <= env['max_parents']), 'no more than max_parents parents are returned')
    st = env['st']
    E.oblige(eq(st.d['_edges_list'].n, 0), 'the structure stays free of edges')
    rem = env['est'].d['_removable_edges_matrix']
    E.oblige(all_in(lambda i: all_in(lambda j: iff(rem.get(i, j), env['rem'](z(i), z(j))), n), n), 'the known edges are left as they were')


VARIANTS = [(dict(max_parents=None, patience=None), 'no limits'), (dict(max_parents=lim('max_parents', 0), patience=None), 'max_parents'),
            (dict(max_parents=None, patience=lim('patience', 0)), 'patience'), (dict(max_parents=lim('max_parents', 0), patience=lim('patience', 0)), 'max_parents and patience')]


def verify_search(ctx, opt, mk, **kw):
    ctx.parallel(jobs_search(opt, mk, **kw))


def jobs_search(opt, mk, more=None, post=None, only=None, prepare=None):
    def one(ctx, lims, tag):
        L = dict(lims, iterations_number=lim('iterations'))

        def s(E, I):
            o, at, env = search_state(E, I, 'StructureScoreBasedEstimator', opt, L)
            if prepare:
                prepare(env)
            E.contracts = {'StructureScoreBasedEstimator.get_score_from_graph': score_contract(env)}
            E.default_inv = lambda I_, s_, f, it: mk(env)
            return o, [], at, env
        ctx.verify('StructureScoreBasedEstimator.estimate_parents', s, post or search_post, label='%s (%s)' % (opt, tag))
    jobs = [(dict(l, **m), t + (', ' + u if u else '')) for m, u in (more or [({}, '')]) for l, t in VARIANTS]
    return [lambda c, l=l, t=t: one(c, l, t) for l, t in jobs if only is None or t in only]
