"""C19: removing a node keeps the rest of the structure aligned; look-ups agree after any sequence of operations."""
NOTE = ('contracts/c19.py: remove_node, edge changes and look-ups of Structure and NetworkGraph are proved on an arbitrary state that satisfies the alignment invariant, and preserve it (any history, by induction over operations). '
        'networkx graphs and numpy.delete as axiomatised; labels are distinct.')

from .common import *


def run(ctx):
    S = 'Structure.'

    def removed(E, env, x, st, tag):
        """st is env's structure without the label x"""
        n, lf, lg, xf, vf, ne, ea, eb, V = [env[k] for k in 'n lf lg xf vf ne ea eb V'.split()]
        p = lg(x)
        skip = lambda f: (lambda i: ite(lt(i, p), f(z(i)), f(z(i) + 1)))
        L, X, C, Ed = [st.d[a] for a in ('_nodes_labels_list', '_nodes_indexes_arr', '_nodes_vals_arr', '_edges_list')]
        m = n - 1
        E.oblige(band(eq(L.n, m), eq(X.shape[0], m), eq(C.shape[0], m)), tag + 'one label, index and cardinality less')
        E.oblige(all_in(lambda i: eq(L.get(i), skip(lf)(i)), m), tag + 'the other labels, in order')
        E.oblige(all_in(lambda i: eq(X.get(i), skip(xf)(i)), m), tag + 'every other label keeps its index')
        E.oblige(all_in(lambda i: eq(C.get(i), skip(vf)(i)), m), tag + 'every other label keeps its cardinality')
        E.oblige(eq(st.d['_total_variables_number'], V), tag + 'the number of columns stays')
        l = Lambda_b(lambda k: And(ea(k) != x, eb(k) != x))
        E.oblige(eq(Ed.n, Cnt(l, ne)), tag + 'as many edges as do not touch the node')
        E.oblige(all_in(lambda q: And(zb(eq(Ed.get(q)[0], ea(Sel(l, ne, zi(q))))), zb(eq(Ed.get(q)[1], eb(Sel(l, ne, zi(q)))))), Ed.n), tag + 'the edges that do not touch the node, in order')
        return m, skip

    def unchanged(E, env, st, tag, edges=True):
        n, lf, xf, vf, ne, ea, eb, V = [env[k] for k in 'n lf xf vf ne ea eb V'.split()]
        L, X, C, Ed = [st.d[a] for a in ('_nodes_labels_list', '_nodes_indexes_arr', '_nodes_vals_arr', '_edges_list')]
        E.oblige(band(eq(L.n, n), eq(X.shape[0], n), eq(C.shape[0], n), all_in(lambda i: band(eq(L.get(i), lf(z(i))), eq(X.get(i), xf(z(i))), eq(C.get(i), vf(z(i)))), n), eq(st.d['_total_variables_number'], V)), tag + 'labels, indexes and cardinalities are kept')
        if edges:
            E.oblige(band(eq(Ed.n, ne), all_in(lambda k: band(eq(Ed.get(k)[0], ea(z(k))), eq(Ed.get(k)[1], eb(z(k)))), ne)), tag + 'edges are kept')

    def label_of(E, env, nm='x'):
        x = E.fresh(Lbl, nm)
        E.assume(env['isl'](x))
        return x

    def s_remove(E, I):
        st, env = structure(E, I)
        x = env['x'] = label_of(E, env)
        return st, [x], {}, env
    ctx.verify(S + 'remove_node', s_remove, lambda E, I, env, out: removed(E, env, env['x'], env['st'], ''))

    # look-ups of a structure
    def look(q, goal, arg='x', edges=True):
        def s(E, I):
            st, env = structure(E, I)
            if arg == 'x':
                a = env['x'] = label_of(E, env)
            else:
                a = env['i'] = E.fresh(I_, 'i')
                E.assume(And(0 <= a, a < env['n']))
            return st, [a], {}, env

        def p(E, I, env, out):
            E.oblige(goal(env, out), 'the look-up answers for the right label')
            unchanged(E, env, env['st'], '')
        ctx.verify(q, s, p)
    look(S + 'get_node_id', lambda env, out: eq(out, env['lf'](env['i'])), arg='i')
    look(S + 'get_node_indx', lambda env, out: eq(out, env['xf'](env['lg'](env['x']))))
    look(S + 'get_positional_node_indx', lambda env, out: eq(out, env['lg'](env['x'])))
    look(S + 'get_states_number', lambda env, out: eq(out, env['vf'](env['lg'](env['x']))))

    # edges of a structure
    def s_edge(E, I):
        st, env = structure(E, I)
        env['a'], env['b'] = label_of(E, env, 'a'), label_of(E, env, 'b')
        return st, [(env['a'], env['b'])], {}, env

    def p_add(E, I, env, out):
        st, ne, ea, eb = env['st'], env['ne'], env['ea'], env['eb']
        unchanged(E, env, st, '', edges=False)
        Ed = st.d['_edges_list']
        E.oblige(band(eq(Ed.n, ne + 1), all_in(lambda k: band(eq(Ed.get(k)[0], ite(eq(k, ne), env['a'], ea(z(k)))), eq(Ed.get(k)[1], ite(eq(k, ne), env['b'], eb(z(k))))), ne + 1)), 'the edge is added after the others')
    ctx.verify(S + 'add_edge', s_edge, p_add)

    def p_clean(E, I, env, out):
        unchanged(E, env, env['st'], '', edges=False)
        E.oblige(eq(env['st'].d['_edges_list'].n, 0), 'no edge is left')
    ctx.verify(S + 'clean_structure_edges', lambda E, I: (lambda r: (r[0], [], {}, r[1]))(structure(E, I)), p_clean)

    def p_contains(E, I, env, out):
        ne, ea, eb = env['ne'], env['ea'], env['eb']
        unchanged(E, env, env['st'], '')
        k = E.fresh(I_, 'k')
        E.oblige(iff(out, Exists([k], And(0 <= k, k < ne, ea(k) == env['a'], eb(k) == env['b']))), 'contained exactly when it is one of the edges')
    ctx.verify(S + 'contains_edge', s_edge, p_contains)

    def s_rem_edge(E, I):
        st, args, kw, env = s_edge(E, I)
        k = env['k'] = E.fresh(I_, 'at')
        E.assume(And(0 <= k, k < env['ne'], env['ea'](k) == env['a'], env['eb'](k) == env['b']))
        E.assume(forall(lambda q: imp(And(0 <= q, q < env['ne'], env['ea'](q) == env['a'], env['eb'](q) == env['b']), q >= k), I_, pat=lambda q: env['ea'](q)))
        return st, args, kw, env

    def p_rem_edge(E, I, env, out):
        st, ne, ea, eb, k = [env[x] for x in 'st ne ea eb k'.split()]
        unchanged(E, env, st, '', edges=False)
        Ed = st.d['_edges_list']
        E.oblige(eq(Ed.n, ne - 1), 'one edge less')
        E.oblige(all_in(lambda q: band(eq(Ed.get(q)[0], ite(lt(q, k), ea(z(q)), ea(z(q) + 1))), eq(Ed.get(q)[1], ite(lt(q, k), eb(z(q)), eb(z(q) + 1)))), ne - 1), 'the first occurrence of the edge is removed, the others are kept in order')
    ctx.verify(S + 'remove_edge', s_rem_edge, p_rem_edge)

    # networks
    N = 'NetworkGraph.'

    def s_init(E, I):
        st, env = structure(E, I)
        return inst(E, I, 'NetworkGraph'), [st], {}, env

    def s_build(E, I):
        st, env = structure(E, I)
        env['net'] = I.instantiate(I.repo.classes['NetworkGraph'], [st], {})
        return env['net'], [I.attr(st, 'nodes_labels')], {}, env

    def p_build(E, I, env, out):
        net_inv(E, env, env['n'], env['lf'], env['xf'], env['vf'], '')
        x = E.fresh(Lbl, 'any')
        g = env['net'].d['_graph']
        E.oblige(iff(g.node(x), env['isl'](x)), 'the nodes of the network are the labels')
        unchanged(E, env, env['st'], '')
    ctx.verify(N + 'add_nodes', s_build, p_build, label=N + 'add_nodes (on a new network)')

    def s_nrem(E, I):
        net, env = network(E, I)
        x = env['x'] = label_of(E, env)
        return net, [x], {}, env

    def p_nrem(E, I, env, out):
        net, x = env['net'], env['x']
        m, skip = removed(E, env, x, net.d['_graph_struct'], 'structure: ')
        net_inv(E, env, m, skip(env['lf']), skip(env['xf']), skip(env['vf']), '')
        a, b = E.fresh(Lbl, 'a'), E.fresh(Lbl, 'b')
        g = net.d['_graph']
        E.oblige(iff(g.node(a), And(env['isl'](a), a != x)), 'the nodes are the other labels')
        E.oblige(iff(g.edge(a, b), And(Select(Select(env['P'], b), a), a != x, b != x)), 'the edges are those that do not touch the node')
    ctx.verify(N + 'remove_node', s_nrem, p_nrem)

    def nlook(q, goal):
        def s(E, I):
            net, env = network(E, I)
            a = env['x'] = label_of(E, env)
            return net, [a], {}, env

        def p(E, I, env, out):
            E.oblige(goal(env, out), 'the look-up answers for the right label')
            net_inv(E, env, env['n'], env['lf'], env['xf'], env['vf'], '')
            unchanged(E, env, env['st'], '')
        ctx.verify(q, s, p)
    nlook(N + 'get_node_indx', lambda env, out: eq(out, env['xf'](env['lg'](env['x']))))
    nlook(N + 'get_states_number', lambda env, out: eq(out, env['vf'](env['lg'](env['x']))))
    nlook(N + 'get_positional_node_indx', lambda env, out: eq(out, env['lg'](env['x'])))

    def s_nadd(E, I):
        net, env = network(E, I)
        a, b = env['a'], env['b'] = label_of(E, env, 'a'), label_of(E, env, 'b')
        return net, [PList.of(E, [(a, b)])], {}, env

    def p_nedge(new):
        def p(E, I, env, out):
            net = env['net']
            net_inv(E, env, env['n'], env['lf'], env['xf'], env['vf'], '')
            unchanged(E, env, env['st'], '')
            a, b = E.fresh(Lbl, 'c'), E.fresh(Lbl, 'd')
            g = net.d['_graph']
            E.oblige(iff(g.node(a), env['isl'](a)), 'the nodes are kept')
            E.oblige(iff(g.edge(a, b), new(env, a, b)), 'exactly this edge changes')
        return p
    old = lambda env, a, b: Select(Select(env['P'], b), a)
    it = lambda env, a, b: And(a == env['a'], b == env['b'])
    ctx.verify(N + 'add_edges', s_nadd, p_nedge(lambda env, a, b: Or(old(env, a, b), it(env, a, b))), label=N + 'add_edges (one edge)')
    ctx.verify(N + 'remove_edges', s_nadd, p_nedge(lambda env, a, b: And(old(env, a, b), Not(it(env, a, b)))), label=N + 'remove_edges (one edge)')

    def s_nadds(E, I):
        net, env = network(E, I)
        m = env['m'] = E.fresh(I_, 'm')
        E.assume(m >= 0)
        ha, hb = Function(E.name('ntail'), I_, Lbl), Function(E.name('nhead'), I_, Lbl)
        E.assume(forall(lambda k: imp(inrange(k, m), And(env['isl'](ha(k)), env['isl'](hb(k)))), I_, pat=lambda k: ha(k)))
        env.update(ha=ha, hb=hb)
        return net, [PList.sym(E, m, lambda k: (ha(z(k)), hb(z(k))))], {}, env

    def new_many(env, a, b):
        k = Int('k_any')
        return Or(old(env, a, b), Exists([k], And(0 <= k, k < env['m'], env['ha'](k) == a, env['hb'](k) == b)))
    ctx.verify(N + 'add_edges', s_nadds, p_nedge(new_many), label=N + 'add_edges (any list of edges)')

    def p_has(E, I, env, out):
        E.oblige(iff(out, old(env, env['a'], env['b'])), 'exactly the edges of the network')
    ctx.verify(N + 'has_edge', lambda E, I: (lambda r: (r[0], [(r[3]['a'], r[3]['b'])], {}, r[3]))(s_nadd(E, I)), p_has)
