"""C16: per-node results are assembled into one graph with the nodes of the data set; data and prior structure are left as they were."""
NOTE = ('contracts/c16.py: ctpc_algorithm and the score-based estimate_structure for any per-node results (the per-node search is called through its contract: an arbitrary set of edges into the node, '
        'with the structure free of edges and the same limits for every node as preconditions), with and without multiprocessing; adjacency_matrix on any estimated graph. '
        'Process pools are axiomatised as an order-preserving map.')

from .common import *

LIM = ('max_parents', 'iterations_number', 'patience', 'tabu_length', 'tabu_rules_duration')


def run(ctx):
    def node_result(env):
        """contract of the search of one node: precondition obligations, arbitrary result EST(node)"""
        EST = env['EST']

        def contract(E, self=None, **b):
            node = lab(b.get('var_id', b.get('node_id')))
            E.oblige(env['isl'](node), 'a node of the data set is searched')
            st = env['st']
            E.oblige(eq(st.d['_edges_list'].n, 0), 'the search starts from a structure without edges')
            if 'tot_vars_count' in b:
                E.oblige(eq(b['tot_vars_count'], env['n']), 'the number of variables is passed on')
            for k in LIM:
                if k in env['limits']:
                    E.oblige(veq(b[k], env['limits'][k]), 'every node is searched with the same ' + k)
            if 'optimizer' in env['limits']:
                E.oblige(veq(b['optimizer'], env['limits']['optimizer']), 'every node is searched with the same algorithm')
            return Opaque('edgeset', has=lambda e: EST(node, lab(e[0]), lab(e[1])))
        return contract

    def setup(cls, args, kw, limits):
        def s(E, I):
            sp, env = sample_path(E, I)
            est = estimator(E, I, cls, sp, env)
            env['EST'] = Function(E.name('EST'), Lbl, Lbl, Lbl, B)
            env['limits'] = {}
            isl, EST = env['isl'], env['EST']
            E.assume(forall(lambda x, a, b: imp(EST(x, a, b), And(isl(a), isl(b), b == x, a != b)), Lbl, Lbl, Lbl, pat=lambda x, a, b: EST(x, a, b)))
            k2 = dict(kw)
            if limits:
                for l in LIM:
                    env['limits'][l] = k2[l] = E.fresh(I_, l)
                env['limits']['optimizer'] = k2['optimizer'] = limits
            if 'processes_number' in k2 and k2['processes_number'] == '?':
                k2['processes_number'] = E.fresh(I_, 'processes')
                E.assume(k2['processes_number'] >= 1)
            E.contracts = {'StructureConstraintBasedEstimator.one_iteration_of_CTPC_algorithm': node_result(env), 'StructureScoreBasedEstimator.estimate_parents': node_result(env)}
            return est, args, k2, env
        return s

    def post(E, I, env, out):
        n, lf, ne, ea, eb, EST, st, isl = [env[k] for k in 'n lf ne ea eb EST st isl'.split()]
        a, b = E.fresh(Lbl, 'a'), E.fresh(Lbl, 'b')
        found = mk_any(lambda i: EST(lf(z(i)), a, b), n)
        has = pairs_member(E, I, out, a, b)
        E.oblige(imp(has, found), 'every returned edge was found for some node')
        i = E.fresh(I_, 'i')
        E.oblige(imp(And(0 <= i, i < n, EST(lf(i), a, b)), has), 'every edge found for a node is returned')
        g = env['est'].d['_complete_graph']
        E.oblige(iff(g.node(a), isl(a)), 'the estimated graph has exactly the nodes of the data set')
        E.oblige(imp(g.edge(a, b), found), 'every edge of the estimated graph was found for some node')
        E.oblige(imp(And(0 <= i, i < n, EST(lf(i), a, b)), g.edge(a, b)), 'every edge found for a node is in the estimated graph')
        es, ls = st.d['_edges_list'], st.d['_nodes_labels_list']
        E.oblige(eq(es.n, ne), 'the prior structure has as many edges as before')
        E.oblige(all_in(lambda k: veq(es.get(k), (ea(z(k)), eb(z(k)))), ne), 'the prior structure keeps its edges')
        E.oblige(band(eq(ls.n, n), all_in(lambda k: eq(ls.get(k), lf(k)), n)), 'the labels are left as they were')
        X, V = st.d['_nodes_indexes_arr'], st.d['_nodes_vals_arr']
        E.oblige(band(eq(X.shape[0], n), eq(V.shape[0], n), all_in(lambda k: band(eq(X.get(k), env['xf'](k)), eq(V.get(k), env['vf'](k))), n)), 'the indexes and cardinalities are left as they were')
        E.oblige(env['sp'].d['_structure'] is st, 'the sample path keeps its structure')
        E.oblige(isinstance(env['sp'].d['_trajectories'], Opaque), 'the sample path keeps its trajectories')

    C, S = 'StructureConstraintBasedEstimator', 'StructureScoreBasedEstimator'
    for tag, kw in (('one process', dict(disable_multiprocessing=True)), ('several processes', dict(disable_multiprocessing=False)), ('given number of processes', dict(disable_multiprocessing=False, processes_number='?'))):
        ctx.verify(C + '.estimate_structure', setup(C, [], kw, None), post, label='%s.estimate_structure (%s)' % (C, tag))
        for opt in ('tabu', 'hill'):
            ctx.verify(S + '.estimate_structure', setup(S, [], kw, opt), post, label='%s.estimate_structure (%s, %s)' % (S, opt, tag))

    for cls in (C, S):
        def s_adj(E, I, cls=cls):
            sp, env = sample_path(E, I)
            return estimator(E, I, cls, sp, env), [], {}, env

        def p_adj(E, I, env, out):
            n, lf = env['n'], env['lf']
            E.oblige(band(out.ndim == 2, eq(out.shape[0], n), eq(out.shape[1], n)), 'one row and column per variable')
            i, j = E.fresh(I_, 'i'), E.fresh(I_, 'j')
            E.oblige(imp(And(0 <= i, i < n, 0 <= j, j < n), iff(tb(out.get(i, j)), Select(Select(env['cgP'], lf(j)), lf(i)))), 'entry (i, j) tells whether variable i is a parent of variable j')
        ctx.verify('StructureEstimator.adjacency_matrix', s_adj, p_adj, label=cls + '.adjacency_matrix')


def tb(v):
    return zb(v) if not isz(v) or v.sort() == B else v != 0
