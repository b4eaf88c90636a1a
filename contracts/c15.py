"""C15: known edges become non-removable, and every search keeps the edges that may not be removed."""
import os
from .c14 import *
from . import c12

NOTE = ('contracts/c15.py: the matrix of removable edges built by the constructors of both estimators for any list of known edges (exactly the known edges are non-removable); '
        'one_iteration_of_CTPC_algorithm and estimate_parents (hill climbing and tabu, all combinations of limits, any prior edges) return every edge into the node that may not be removed, '
        'for any answers of the independence tests, any scores and any random choices; the union over the nodes is C16. complete_test and get_score_from_graph are used through their contracts.')
ONLY = os.environ['ONLY'].split(';') if 'ONLY' in os.environ else None


class KeepInv(TabuInv):
    """only what keeps the prior edges"""

    def leaving(self, E, k):
        pass

    def scalars(self, k):
        return []

    def candidates(self, k):
        return [c for c in super().candidates(k) if c[0] in ('the nodes of the graph', 'edges lead into the searched node only', 'the prior parents are kept', 'parents are counted') or 'tabu' in c[0]]

    def variant(self):
        return None


def keep_post(E, I, env, out):
    x, PR, isl = [env[k] for k in 'x PR isl'.split()]
    a, b = E.fresh(Lbl, 'a'), E.fresh(Lbl, 'b')
    E.oblige(imp(pairs_member(E, I, out, a, b), And(b == x, isl(a), a != x)), 'every returned edge leads from another node into the searched node')
    E.oblige(imp(Select(PR, a), pairs_member(E, I, out, a, x)), 'every known edge into the node is returned')
    n = env['n']
    rem = env['est'].d['_removable_edges_matrix']
    E.oblige(all_in(lambda i: all_in(lambda j: iff(rem.get(i, j), env['rem'](z(i), z(j))), n), n), 'the known edges are left as they were')


def build(ctx):
    def setup(cls, fn, known):
        def s(E, I):
            sp, env = sample_path(E, I)
            n, isl = env['n'], env['isl']
            m = env['m'] = IntVal(0)
            ka, kb = env['ka'], env['kb'] = Function(E.name('ktail'), I_, Lbl), Function(E.name('khead'), I_, Lbl)
            arg = None
            if known == 'list':
                m = env['m'] = E.fresh(I_, 'known')
                E.assume(m >= 0)
                E.assume(forall(lambda k: imp(inrange(k, m), And(isl(ka(k)), isl(kb(k)))), I_, pat=lambda k: ka(k)))
                arg = PList.sym(E, m, lambda k: (ka(z(k)), kb(z(k))))
            elif known == 'empty':
                arg = PList.of(E, [])
            env['cls'] = cls
            if fn == 'build_removable_edges_matrix':
                est = env['est'] = estimator(E, I, cls, sp, env)
                return est, [arg], {}, env
            est = env['est'] = inst(E, I, cls)
            kw = dict(known_edges=arg) if known != 'default' else {}
            if 'Constraint' in cls:
                kw.update(exp_test_alfa=E.fresh(R, 'alpha'), chi_test_alfa=E.fresh(R, 'alpha'))
            return est, [sp], kw, env
        return s

    def post(E, I, env, out):
        n, lf, ka, kb, m = [env[k] for k in 'n lf ka kb m'.split()]
        M = out if isinstance(out, PArr) else env['est'].d['_removable_edges_matrix']
        E.oblige(band(M.ndim == 2, eq(M.shape[0], n), eq(M.shape[1], n)), 'one row and column per variable')
        i, j = E.fresh(I_, 'i'), E.fresh(I_, 'j')
        ok = And(0 <= i, i < n, 0 <= j, j < n)
        known = mk_any(lambda k: And(ka(z(k)) == lf(i), kb(z(k)) == lf(j)), m)
        E.oblige(imp(And(ok, Not(zb(M.get(i, j)))), known), 'an edge that may not be removed is a known edge')
        k = E.fresh(I_, 'k')
        E.oblige(imp(And(ok, 0 <= k, k < m, ka(k) == lf(i), kb(k) == lf(j)), Not(zb(M.get(i, j)))), 'a known edge may not be removed')
        if not isinstance(out, PArr):
            E.oblige(env['est'].d['_sample_path'] is env['sp'], 'the estimator works on the given sample path')
    for cls in ('StructureConstraintBasedEstimator', 'StructureScoreBasedEstimator'):
        for known in ('list', 'empty', 'none', 'default'):
            ctx.verify(cls + '.__init__', setup(cls, '__init__', known), post, label='%s.__init__ (known edges: %s)' % (cls, known))


def run(ctx):
    fns = []
    if ONLY is None or 'build' in ONLY:
        fns.append(build)
    if ONLY is None or 'ctpc' in ONLY:
        fns.append(lambda c: c.verify('StructureConstraintBasedEstimator.one_iteration_of_CTPC_algorithm', c12.setup(False), lambda E, I, env, out: c12.post(E, I, env, out, False)))
    j = jobs_search('HillClimbing', KeepInv, post=keep_post, only=ONLY) + jobs_search('TabuSearch', KeepInv, post=keep_post, only=ONLY, more=[(dict(tabu_length=l, tabu_rules_duration=d), t) for l, d, t in TABU])
    ctx.parallel(fns + j)
