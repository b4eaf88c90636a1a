"""C18: the score of a candidate is the family score of the statistics under the parents in the graph."""
NOTE = ('contracts/c18.py: get_score_from_graph and what it calls (fast_init, the estimator, the construction of the matrices) are executed on any network graph in any state, with empty or stale caches, against the '
        'contracts of C01, C02 (statistics of the family given by filter and strides) and C08 (family score): the columns passed are the node and, strictly in variable order, exactly the tails of the edges '
        'into it, the strides are those of their cardinalities, and the result is the family score of the statistics so obtained, all configurations included. '
        'The structure of the sample path has no edges while the optimizers run (C13, C14).')

from .common import *
from pyver.values import PList


def stale(E, net):
    """caches left by earlier calls: anything"""
    lst = lambda nm, s: (lambda n, f: PList.sym(E, n, lambda k: f(z(k))))(E.fresh(I_, nm + '_n'), Function(E.name(nm), I_, s))
    arr = lambda nm: (lambda n: intarr(E, nm, n)[0])(E.fresh(I_, nm + '_n'))
    L, X, C = lst('old_l', Lbl), lst('old_x', I_), lst('old_c', I_)
    net.d['_aggregated_info_about_nodes_parents'] = (L, X, C)
    for a in ('_time_scalar_indexing_structure', '_transition_scalar_indexing_structure', '_time_filtering', '_transition_filtering'):
        net.d[a] = arr('old' + a)
    r, c = E.fresh(I_, 'old_rows'), E.fresh(I_, 'old_cols')
    net.d['_p_combs_structure'] = intarr(E, 'old_combs', r, c)[0]
    for o in (L.n, X.n, C.n, r, c, *[net.d[a].shape[0] for a in ('_time_scalar_indexing_structure', '_transition_scalar_indexing_structure', '_time_filtering', '_transition_filtering')]):
        E.assume(o >= 0)


def trajectories(E, I, env):
    """the data of the sample path: one time and 2V states per row"""
    V = env['V']
    m = env['m'] = E.fresh(I_, 'rows')
    E.assume(m >= 0)
    full, ft = intarr(E, 'trj', m, 2 * V)
    times, fm = realarr(E, 'times', m)
    t = inst(E, I, 'Trajectory', _times=times, _actual_trajectory=full, _original_cols_number=V + 1)
    env.update(ft=ft, fm=fm, traj=t)
    return t


def family_columns(E, env, x, cf, sc, head, edge, tag):
    """cf[head:] enumerates, strictly increasing, the columns of the parents of x; sc are the strides of their cardinalities"""
    n, V, lf, lg, vf = [env[k] for k in 'n V lf lg vf'.split()]
    d = lg(x)
    K = sub(cf.shape[0], head)
    E.oblige(le(0, K), tag + 'a column per variable of the family')
    if head == 1:
        E.oblige(eq(cf.get(0), d), tag + 'the column of the node')
    else:
        E.oblige(band(eq(cf.get(0), d + V), eq(cf.get(1), d)), tag + 'the columns of the next state and the state of the node')
    p = lambda j: cf.get(z(j) + head)
    E.oblige(all_in(lambda j: band(inrange(p(j), n), edge(lf(zi(p(j))), x)), K), tag + 'every other column is the column of a parent')
    E.oblige(all_in(lambda j: all_in(lambda q: lt(p(q), p(j)), j), K), tag + 'in the order of the variables, none twice')
    a = E.fresh(Lbl, 'parent')
    E.oblige(imp(edge(a, x), mk_any(lambda j: eq(p(j), lg(a)), K)), tag + 'every parent has its column')
    v = lambda j: vf(zi(p(j)))
    cards = time_cards(vf(d), v) if head == 1 else trans_cards(vf(d), v)
    E.oblige(band(eq(sc.shape[0], cf.shape[0]), all_in(lambda j: eq(sc.get(j), prefix(cards, z(j) + 1)), cf.shape[0])), tag + 'the strides are those of the cardinalities of these columns')
    return K, v


def statistics(E, I, env, x, edge):
    """contracts of C01 and C02 at the calls: the statistics of the family of x"""
    n, V, lg, vf, m, ft, fm = [env[k] for k in 'n V lg vf m ft fm'.split()]
    Tst, Mst = Function(E.name('T'), I_, I_, R), Function(E.name('M'), I_, I_, I_, I_)
    E.assume(forall(lambda c, s: Tst(c, s) >= 0, I_, I_, pat=lambda c, s: Tst(c, s)))
    E.assume(forall(lambda c, s, t: Mst(c, s, t) >= 0, I_, I_, I_, pat=lambda c, s, t: Mst(c, s, t)))
    env.update(Tst=Tst, Mst=Mst)
    d = lg(x)

    def res_times(E, times=None, trajectory=None, cols_filter=None, scalar_indexes_struct=None, T=None, **_):
        E.oblige(band(eq(times.shape[0], m), all_in(lambda r: eq(times.get(r), fm(z(r))), m)), 'times: all the recorded times')
        E.oblige(eq(trajectory.shape[0], m), 'times: all the rows')
        E.oblige(le(V, trajectory.shape[1]), 'times: all the columns')
        E.oblige(all_in(lambda r: all_in(lambda c: eq(trajectory.get(r, c), ft(z(r), z(c))), V), m), 'times: the recorded states')
        K, v = family_columns(E, env, x, cols_filter, scalar_indexes_struct, 1, edge, 'times: ')
        env['P1'] = prodv(v, K)
        E.oblige(band(eq(T.shape[0], prodv(v, K)), eq(T.shape[1], vf(d))), 'times: one row per configuration and one column per state')
        T.set(fn=lambda ix: Tst(z(ix[0]), z(ix[1])))

    def transitions(E, node_indx=None, trajectory=None, cols_filter=None, scalar_indexing=None, M=None, **_):
        E.oblige(eq(node_indx, d), 'transitions: of the node')
        E.oblige(eq(trajectory.shape[0], m), 'transitions: all the rows')
        E.oblige(eq(trajectory.shape[1], 2 * V), 'transitions: the states before and after')
        E.oblige(all_in(lambda r: all_in(lambda c: eq(trajectory.get(r, c), ft(z(r), z(c))), 2 * V), m), 'transitions: the recorded states')
        K, v = family_columns(E, env, x, cols_filter, scalar_indexing, 2, edge, 'transitions: ')
        E.oblige(band(eq(M.shape[0], prodv(v, K)), eq(M.shape[1], vf(d)), eq(M.shape[2], vf(d))), 'transitions: one matrix of the size of the node per configuration')
        M.set(fn=lambda ix: Mst(z(ix[0]), z(ix[1]), z(ix[2])))
    return {'ParametersEstimator.compute_state_res_time_for_node': res_times, 'ParametersEstimator.compute_state_transitions_for_a_node': transitions}


def run(ctx):
    def setup(E, I, old):
        sp, env = sample_path(E, I, edges=False)
        sp.d['_trajectories'] = trajectories(E, I, env)
        net, env = network(E, I, of=env)
        if old:
            stale(E, net)
        x = env['x'] = E.fresh(Lbl, 'x')
        E.assume(env['isl'](x))
        vf, d = env['vf'], env['lg'](x)
        E.assume(vf(d) >= 2)
        tau, al = E.fresh(R, 'tau'), E.fresh(R, 'alpha')
        E.assume(And(tau > 0, al > 0))
        edge = lambda a, b: Select(Select(env['P'], b), a)
        E.contracts = statistics(E, I, env, x, edge)
        score = env['score'] = E.fresh(R, 'score')
        env['asked'] = PList.of(E, [])

        def fam(E, self=None, cims=None, tau_xu=0.1, alpha_xu=1, **_):
            Tst, Mst, n = env['Tst'], env['Mst'], vf(d)
            E.oblige('P1' in env, 'the statistics are computed')
            c = cims.shape[0] if isinstance(cims, PArr) else cims.n
            E.oblige(eq(c, env['P1']), 'one matrix per configuration of the parents')
            k = E.fresh(I_, 'k')
            E.assume(inrange(k, c))
            o = cims.get(k)
            Ma, Ta = I.attr(o, 'state_transition_matrix'), I.attr(o, 'state_residence_times')
            E.oblige(band(eq(Ma.shape[0], n), eq(Ma.shape[1], n), eq(Ta.shape[0], n)), 'the counts and times have the size of the node')
            E.oblige(all_in(lambda a: all_in(lambda b: eq(Ma.get(a, b), Mst(k, z(a), z(b))), n), n), 'the counts of configuration k')
            E.oblige(all_in(lambda a: eq(Ta.get(a), Tst(k, z(a))), n), 'the times of configuration k')
            E.oblige(band(eq(tau_xu, tau), eq(alpha_xu, al)), 'the hyperparameters of the estimator')
            return score
        E.contracts['FamScoreCalculator.get_fam_score'] = fam
        est = estimator(E, I, 'StructureScoreBasedEstimator', sp, env, tau_xu=tau, alpha_xu=al)
        return est, [net, x], {}, env

    def post(E, I, env, out):
        E.oblige(eq(out, env['score']), 'the result is the family score')
        g = env['net'].d['_graph']
        a, b = E.fresh(Lbl, 'a'), E.fresh(Lbl, 'b')
        E.oblige(iff(g.edge(a, b), Select(Select(env['P'], b), a)), 'the graph keeps its edges')
        st = env['st']
        E.oblige(eq(st.d['_edges_list'].n, 0), 'the structure of the sample path keeps its (empty) edges')
        L, n = st.d['_nodes_labels_list'], env['n']
        E.oblige(band(eq(L.n, n), all_in(lambda i: eq(L.get(i), env['lf'](z(i))), n)), 'and its labels')
    for old in (False, True):
        ctx.verify('StructureScoreBasedEstimator.get_score_from_graph', lambda E, I, old=old: setup(E, I, old), post,
                   label='StructureScoreBasedEstimator.get_score_from_graph (%s)' % ('caches of earlier calls' if old else 'new graph'))
