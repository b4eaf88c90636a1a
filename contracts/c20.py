"""C20: parents in variable order with matching indexes and cardinalities; filters and strides name the node, then these parents."""
NOTE = ('contracts/c20.py: get_ordered_by_indx_set_of_parents on an arbitrary aligned network, and fast_init on an arbitrary structure, whatever the order of the edges; '
        'strides, filters and the configuration table by the contracts of C01-C03 (called functions checked against their contracts). networkx, sorted and numpy as axiomatised.')

from .common import *


def ordered_parents(E, env, edge, x, out, tag=''):
    """out = (labels, indexes, cardinalities) of the tails of the edges into x, in variable order"""
    n, lf, lg, xf, vf, isl = [env[k] for k in 'n lf lg xf vf isl'.split()]
    if not isinstance(out, tuple) or len(out) != 3:
        E.oblige(False, tag + 'a triple is returned')
        return
    L, X, C = out
    K = L.n
    E.oblige(band(eq(X.n if isinstance(X, PList) else X.shape[0], K), eq(C.n if isinstance(C, PList) else C.shape[0], K)), tag + 'one index and one cardinality per parent')
    E.oblige(all_in(lambda k: band(isl(lab(L.get(k))), edge(lab(L.get(k)), x)), K), tag + 'every reported parent is the tail of an edge into the node')
    E.oblige(all_in(lambda k: all_in(lambda q: lg(lab(L.get(q))) < lg(lab(L.get(k))), k), K), tag + 'the parents are in the order of the variables, none twice')
    a = E.fresh(Lbl, 'par')
    E.oblige(imp(edge(a, x), mk_any(lambda k: eq(L.get(k), a), K)), tag + 'every tail of an edge into the node is reported')
    E.oblige(all_in(lambda k: eq(X.get(k), xf(lg(lab(L.get(k))))), K), tag + 'every parent comes with its own column index')
    E.oblige(all_in(lambda k: eq(C.get(k), vf(lg(lab(L.get(k))))), K), tag + 'every parent comes with its own cardinality')


def run(ctx):
    def s(E, I):
        net, env = network(E, I)
        x = env['x'] = E.fresh(Lbl, 'x')
        E.assume(env['isl'](x))
        return net, [x], {}, env

    def p(E, I, env, out):
        ordered_parents(E, env, lambda a, b: Select(Select(env['P'], b), a), env['x'], out)
        g = env['net'].d['_graph']
        a, b = E.fresh(Lbl, 'a'), E.fresh(Lbl, 'b')
        E.oblige(iff(g.edge(a, b), Select(Select(env['P'], b), a)), 'the network is not modified')
    ctx.verify('NetworkGraph.get_ordered_by_indx_set_of_parents', s, p)

    def p_par(E, I, env, out):
        P, x = env['P'], env['x']
        a = E.fresh(Lbl, 'par')
        E.oblige(all_in(lambda k: Select(Select(P, x), lab(out.get(k))), out.n), 'every parent is the tail of an edge into the node')
        E.oblige(imp(Select(Select(P, x), a), mk_any(lambda k: eq(out.get(k), a), out.n)), 'every tail of an edge into the node is a parent')
    ctx.verify('NetworkGraph.get_parents_by_id', s, p_par)

    # fast_init on an arbitrary structure
    def s_fast(E, I):
        st, env = structure(E, I)
        x = env['x'] = E.fresh(Lbl, 'x')
        E.assume(env['isl'](x))
        env['net'] = I.instantiate(I.repo.classes['NetworkGraph'], [st], {})
        return env['net'], [x], {}, env

    def p_fast(E, I, env, out):
        net, x, ne, ea, eb, V = [env[k] for k in 'net x ne ea eb V'.split()]
        lg, xf, vf = env['lg'], env['xf'], env['vf']
        k = Int('k_any')
        edge = lambda a, b: Exists([k], And(0 <= k, k < ne, ea(k) == a, eb(k) == b))
        info = net.d['_aggregated_info_about_nodes_parents']
        ordered_parents(E, env, edge, x, info, 'parents: ')
        L, X, C = info
        K = L.n
        n, d = vf(lg(x)), xf(lg(x))
        p, v = (lambda j: xf(lg(lab(L.get(z(j)))))), (lambda j: vf(lg(lab(L.get(z(j))))))
        tf, mf, ts, ms = [I.attr(net, a) for a in ('time_filtering', 'transition_filtering', 'time_scalar_indexing_strucure', 'transition_scalar_indexing_structure')]
        E.oblige(band(eq(tf.shape[0], K + 1), eq(mf.shape[0], K + 2), eq(ts.shape[0], K + 1), eq(ms.shape[0], K + 2)), 'one column and stride per variable of the family')
        E.oblige(all_in(lambda j: eq(tf.get(j), ite(eq(j, 0), d, p(z(j) - 1))), K + 1), 'time filter: the node, then its parents in variable order')
        E.oblige(all_in(lambda j: eq(mf.get(j), ite(eq(j, 0), d + V, ite(eq(j, 1), d, p(z(j) - 2)))), K + 2), 'transition filter: next state, the node, then its parents in variable order')
        E.oblige(all_in(lambda j: eq(ts.get(j), prefix(time_cards(n, v), z(j) + 1)), K + 1), 'time strides: products of the cardinalities in the order of the filter')
        E.oblige(all_in(lambda j: eq(ms.get(j), prefix(trans_cards(n, v), z(j) + 1)), K + 2), 'transition strides: products of the cardinalities in the order of the filter')
        pc = I.attr(net, 'p_combs')
        E.oblige(eq(pc.shape[1], K), 'the configuration table has one column per parent')
    ctx.verify('NetworkGraph.fast_init', s_fast, p_fast)
