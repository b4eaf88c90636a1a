"""C01: residence times."""
NOTE = 'contracts/c01.py: index strides, column filters and the residence-time function are proved for every data set, cardinality and number of parents; floats are reals, integers unbounded, numpy calls as axiomatised. Callers that prepare the arguments are covered by C20.'

from .common import *
from . import lemmas
from .lemmas import F, N_


def res_time_pre(E, R_, K, n, v, p, d, times, trj, T, cf, sc):
    """precondition of compute_state_res_time_for_node, as formulas (proved at call sites)"""
    cards = time_cards(n, v)
    return [('cols_filter names the node and then its parents', band(eq(cf.shape[0], K + 1), all_in(lambda j: eq(cf.get(j), ite(eq(j, 0), d, p(z(j) - 1))), K + 1))),
            ('index strides are the prefix products of the cardinalities', band(eq(sc.shape[0], K + 1), all_in(lambda j: eq(sc.get(j), prefix(cards, z(j) + 1)), K + 1)))]


def run(ctx):
    lemmas.binder_rules(ctx)
    lemmas.radix_split(ctx)
    lemmas.radix_range(ctx)
    lemmas.div_unique(ctx)
    lemmas.counted_once(ctx)
    lemma_rows(ctx)
    functions(ctx)


def lemma_rows(ctx):
    """from family codes to states and configurations: code(r) = x_r + n*cfg(r), 0<=x_r<n"""
    code, xr, cfg, t = [F(s, N_, N_) for s in ('codeA', 'xr', 'cfg')] + [F('tA', N_, R)]
    n, c, x, r = [Int('lm_' + s) for s in 'ncxr']
    uniq = lambda a, b, x_, y_: Implies(And(0 <= x_, x_ < n, 0 <= y_, y_ < n, x_ + n * a == y_ + n * b), And(a == b, x_ == y_))
    ctx.lemma('a row is counted in cell (c, x) exactly when its node is in x and its parents are in c',
              [n > 0, 0 <= xr(r), xr(r) < n, code(r) == xr(r) + n * cfg(r), 0 <= x, x < n, uniq(cfg(r), c, xr(r), x)],
              (code(r) == c * n + x) == And(xr(r) == x, cfg(r) == c))


def functions(ctx):
    # strides
    def s_sc(E, I):
        n, K, d, V, v, p = family(E)
        return None, [n, PList.sym(E, K, lambda j: v(z(j)))], {}, dict(n=n, K=K, v=v)

    def p_sc(E, I, env, out):
        n, K, v = env['n'], env['K'], env['v']
        E.oblige(eq(out.shape[0], K + 1), 'one stride per column')
        E.oblige(all_in(lambda j: eq(out.get(j), prefix(time_cards(n, v), z(j) + 1)), out.shape[0]), 'stride j is the product of the cardinalities up to j')
    ctx.verify('NetworkGraph.build_time_scalar_indexing_structure_for_a_node', s_sc, p_sc)

    def s_f(E, I):
        n, K, d, V, v, p = family(E)
        return None, [d, PList.sym(E, K, lambda j: p(z(j)))], {}, dict(K=K, p=p, d=d)

    def p_f(E, I, env, out):
        K, p, d = env['K'], env['p'], env['d']
        E.oblige(eq(out.shape[0], K + 1), 'one column per variable of the family')
        E.oblige(all_in(lambda j: eq(out.get(j), ite(eq(j, 0), d, p(z(j) - 1))), out.shape[0]), 'the node column first, then the parents in order')
    ctx.verify('NetworkGraph.build_time_columns_filtering_for_a_node', s_f, p_f)

    # residence times
    def s_t(E, I):
        n, K, d, V, v, p = family(E)
        Rr = E.fresh(I_, 'rows')
        E.assume(Rr >= 0)
        trj, ft = intarr(E, 'trj', Rr, V)
        times, fm = realarr(E, 'times', Rr)
        E.assume(forall(lambda r: imp(inrange(r, Rr), And(0 <= ft(r, d), ft(r, d) < n)), I_, pat=lambda r: ft(r, d)))
        E.assume(forall(lambda r, j: imp(And(inrange(r, Rr), inrange(j, K)), And(0 <= ft(r, p(j)), ft(r, p(j)) < v(j))), I_, I_, pat=lambda r, j: ft(r, p(j))))
        P = prodv(v, K)
        cf = PArr.of(E, 'i', (K + 1,), lambda ix: zi(ite(eq(ix[0], 0), d, p(z(ix[0]) - 1))))
        sc = PArr.of(E, 'i', (K + 1,), lambda ix: prefix(time_cards(n, v), z(ix[0]) + 1))
        T, t0 = realarr(E, 'T', P, n)
        return None, [times, trj, cf, sc, T], {}, dict(n=n, K=K, d=d, v=v, p=p, R=Rr, trj=ft, times=fm, T=T, P=P, trja=trj, timesa=times)

    def p_t(E, I, env, out):
        n, K, d, v, p, Rr, trj, times, T, P = [env[k] for k in 'n K d v p R trj times T P'.split()]
        E.oblige(band(eq(T.shape[0], P), eq(T.shape[1], n)), 'one row per configuration, one column per state')
        code = family_code(trj, d, p, time_cards(n, v), K + 1, 1)
        E.oblige(all_in(lambda c: all_in(lambda x: eq(T.get(c, x), mk_sum(lambda r: zr(ite(eq(code(r), c * n + x), times(r), RealVal(0))), Rr)), n), P),
                 'T[c, x] is the sum of the deltas of the rows with the node in x and the parents in configuration c')
        E.oblige(all_in(lambda r: eq(env['timesa'].get(r), times(r)), Rr), 'the deltas are not modified')
    ctx.verify('ParametersEstimator.compute_state_res_time_for_node', s_t, p_t)
