"""C02: transition counts."""
NOTE = 'contracts/c02.py: as C01 for the transition counts (off-diagonal counts, diagonal row sums, frame). floats are reals, integers unbounded, numpy calls as axiomatised.'

from .common import *
from . import lemmas
from .lemmas import F, N_


def run(ctx):
    lemmas.binder_rules(ctx)
    lemmas.radix_split(ctx)
    lemmas.div_unique(ctx)
    functions(ctx)


def functions(ctx):
    def s_sc(E, I):
        n, K, d, V, v, p = family(E)
        return None, [n, PList.sym(E, K, lambda j: v(z(j)))], {}, dict(n=n, K=K, v=v)

    def p_sc(E, I, env, out):
        n, K, v = env['n'], env['K'], env['v']
        E.oblige(eq(out.shape[0], K + 2), 'one stride per column')
        E.oblige(all_in(lambda j: eq(out.get(j), prefix(trans_cards(n, v), z(j) + 1)), out.shape[0]), 'stride j is the product of the cardinalities up to j')
    ctx.verify('NetworkGraph.build_transition_scalar_indexing_structure_for_a_node', s_sc, p_sc)

    def s_f(E, I):
        n, K, d, V, v, p = family(E)
        return None, [d, PList.sym(E, K, lambda j: p(z(j))), V], {}, dict(K=K, p=p, d=d, V=V)

    def p_f(E, I, env, out):
        K, p, d, V = env['K'], env['p'], env['d'], env['V']
        E.oblige(eq(out.shape[0], K + 2), 'one column per variable of the family and the next state')
        E.oblige(all_in(lambda j: eq(out.get(j), ite(eq(j, 0), d + V, ite(eq(j, 1), d, p(z(j) - 2)))), out.shape[0]), 'the next state of the node, the node, then the parents in order')
    ctx.verify('NetworkGraph.build_transition_filtering_for_a_node', s_f, p_f)

    def s_m(E, I):
        n, K, d, V, v, p = family(E)
        Rr = E.fresh(I_, 'rows')
        E.assume(Rr >= 0)
        trj, ft = intarr(E, 'trj', Rr, 2 * V)
        E.assume(forall(lambda r: imp(inrange(r, Rr), And(0 <= ft(r, d), ft(r, d) < n, -1 <= ft(r, d + V), ft(r, d + V) < n)), I_, pat=lambda r: ft(r, d)))
        E.assume(forall(lambda r: imp(inrange(r, Rr), And(-1 <= ft(r, d + V), ft(r, d + V) < n)), I_, pat=lambda r: ft(r, d + V)))
        E.assume(forall(lambda r, j: imp(And(inrange(r, Rr), inrange(j, K)), And(0 <= ft(r, p(j)), ft(r, p(j)) < v(j))), I_, I_, pat=lambda r, j: ft(r, p(j))))
        P = prodv(v, K)
        cards = trans_cards(n, v)
        cf = PArr.of(E, 'i', (K + 2,), lambda ix: zi(ite(eq(ix[0], 0), d + V, ite(eq(ix[0], 1), d, p(z(ix[0]) - 2)))))
        sc = PArr.of(E, 'i', (K + 2,), lambda ix: prefix(cards, z(ix[0]) + 1))
        M, m0 = intarr(E, 'M', P, n, n)
        E.dimcands.append(P)
        return None, [d, trj, cf, sc, M], {}, dict(n=n, K=K, d=d, v=v, p=p, R=Rr, trj=ft, M=M, P=P, trja=trj, V=V)

    def p_m(E, I, env, out):
        n, K, d, v, p, Rr, trj, M, P, V = [env[k] for k in 'n K d v p R trj M P V'.split()]
        E.oblige(band(eq(M.shape[0], P), eq(M.shape[1], n), eq(M.shape[2], n)), 'one n by n matrix per configuration')
        code = family_code(trj, d, p, trans_cards(n, v), K + 2, 2, V)
        cnt = lambda c, x, y: mk_sum(lambda r: ite(band(trj(r, d + V) >= 0, eq(code(r), (c * n + x) * n + y)), IntVal(1), IntVal(0)), Rr)
        c, x, y = E.fresh(I_, 'c'), E.fresh(I_, 'x'), E.fresh(I_, 'y')
        E.assume(And(inrange(c, P), inrange(x, n), inrange(y, n)))
        E.oblige(imp(x != y, eq(M.get(c, x, y), cnt(c, x, y))), 'M[c, x, y] counts the rows with the node in x, the next state y and the parents in configuration c')
        E.oblige(eq(M.get(c, x, x), mk_sum(lambda q: ite(eq(q, x), IntVal(0), M.get(c, x, q)), n)), 'M[c, x, x] is the sum of the other entries of its row')
        E.oblige(all_in(lambda r: eq(env['trja'].get(r, d), trj(r, d)), Rr), 'the trajectory is not modified')
    ctx.verify('ParametersEstimator.compute_state_transitions_for_a_node', s_m, p_m)
