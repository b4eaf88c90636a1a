"""Vocabulary shared by the contracts."""
from pyver.harness import *


def family(E, names=True):
    """node cardinality n, K parents with cardinalities v(j)>=1 and column indexes p(j), node column d, cols variables"""
    n, K, d, V = E.fresh(I_, 'n'), E.fresh(I_, 'K'), E.fresh(I_, 'd'), E.fresh(I_, 'V')
    v, p = Function(E.name('v'), I_, I_), Function(E.name('p'), I_, I_)
    E.assume(And(n >= 1, K >= 0, V >= 1, 0 <= d, d < V))
    E.assume(forall(lambda j: imp(inrange(j, K), And(v(j) >= 1)), I_, pat=lambda j: v(j)))
    E.assume(forall(lambda j: imp(inrange(j, K), And(0 <= p(j), p(j) < V)), I_, pat=lambda j: p(j)))
    return n, K, d, V, v, p


def prodv(v, K):
    return mk_prod(lambda j: zi(v(j)), K)


def time_cards(n, v):
    return lambda j: ite(eq(j, 0), n, v(z(j) - 1))


def trans_cards(n, v):
    return lambda j: ite(lt(j, 2), n, v(z(j) - 2))


def prefix(cards, j):
    return ProdI(lam(lambda q: zi(cards(q))), z(j))


def cfg_code(trj, p, v, K):
    """mixed-radix number of the parents' states in row r: sum of trj[r, p_k] * prod(v_q, q<k)"""
    return lambda r: mk_sum(lambda k: trj(r, p(k)) * ProdI(lam(lambda q: zi(v(q))), zi(k)), K)


def family_code(trj, d, p, cards, m, head, V=None):
    """mixed-radix number of row r: digits are the (next state,) node state and parents' states, in this order, first digit fastest"""
    if head == 1:
        dg = lambda r, j: ite(eq(j, 0), trj(r, d), trj(r, p(z(j) - 1)))
    else:
        dg = lambda r, j: ite(eq(j, 0), trj(r, d + V), ite(eq(j, 1), trj(r, d), trj(r, p(z(j) - 2))))
    return lambda r: mk_sum(lambda j: dg(r, j) * ProdI(lam(lambda q: zi(cards(q))), zi(j)), m)


# ---------------------------------------------------------------- structures and networks

def structure(E, I, edges=True):
    """a Structure of n variables with distinct labels, arbitrary indexes and cardinalities and an arbitrary list of edges between its labels"""
    n = E.fresh(I_, 'n')
    E.assume(n >= 0)
    labels, lf, lg = label_list(E, 'label', n)
    idx, xf = intarr(E, 'indx', n)
    vals, vf = intarr(E, 'val', n)
    E.assume(forall(lambda i: imp(inrange(i, n), And(vf(i) >= 1, xf(i) >= 0)), I_, pat=lambda i: vf(i)))
    ne = E.fresh(I_, 'ne')
    E.assume(ne >= 0)
    ea, eb = Function(E.name('tail'), I_, Lbl), Function(E.name('head'), I_, Lbl)
    isl = lambda l: And(0 <= lg(l), lg(l) < n, lf(lg(l)) == l)
    E.assume(forall(lambda k: imp(inrange(k, ne), And(isl(ea(k)), isl(eb(k)), ea(k) != eb(k))), I_, pat=lambda k: ea(k)))
    es = PList.sym(E, ne, lambda k: (ea(z(k)), eb(z(k)))) if edges else PList.of(E, [])
    V = E.fresh(I_, 'V')
    E.assume(V >= n)
    st = inst(E, I, 'Structure', _nodes_labels_list=labels, _nodes_indexes_arr=idx, _nodes_vals_arr=vals, _edges_list=es, _total_variables_number=V)
    return st, dict(n=n, lf=lf, lg=lg, xf=xf, vf=vf, ne=ne, ea=ea, eb=eb, V=V, isl=isl, st=st)


def network(E, I, of=None, **kw):
    """a NetworkGraph in any state its operations can reach: the nodes of the graph are the labels, each with its index and cardinality; the edges join nodes"""
    st, env = (of['st'], of) if of else structure(E, I, **kw)
    isl, lg, xf, vf = [env[k] for k in ('isl', 'lg', 'xf', 'vf')]
    N, P = E.fresh(SetL, 'nodes'), E.fresh(z3.ArraySort(Lbl, SetL), 'preds')
    E.assume(forall(lambda x: Select(N, x) == isl(x), Lbl, pat=lambda x: Select(N, x)))
    E.assume(forall(lambda x, y: imp(Select(Select(P, y), x), And(isl(x), isl(y))), Lbl, Lbl, pat=lambda x, y: Select(Select(P, y), x)))
    E.assume(forall(lambda y: Card(Select(P, y)) >= 0, Lbl, pat=lambda y: Card(Select(P, y))))
    g = PGraph.empty(E)
    has = lambda x: Select(N, lab(x))
    g.set(nodes=N, preds=P, attrs=(('indx', (has, lambda x: xf(lg(lab(x))))), ('val', (has, lambda x: vf(lg(lab(x))))), ('pos_indx', (has, lambda x: Function('pos_any', Lbl, I_)(lab(x))))))
    caches = ['_aggregated_info_about_nodes_parents', '_time_scalar_indexing_structure', '_transition_scalar_indexing_structure', '_time_filtering', '_transition_filtering', '_p_combs_structure']
    net = inst(E, I, 'NetworkGraph', _graph_struct=st, _graph=g, **{c: None for c in caches})
    env.update(net=net, g=g, P=P, N=N)
    return net, env


def net_inv(E, env, n, lf, xf, vf, tag):
    """the network agrees with the labels lf, indexes xf and cardinalities vf of its structure"""
    g = env['net'].d['_graph']
    at = dict(g.d['attrs'])
    E.oblige(all_in(lambda i: g.node(lf(i)), n), tag + 'every label is a node of the network')
    for a, f in (('indx', xf), ('val', vf)):
        if a not in at:
            E.oblige(False, tag + 'attribute %s is kept' % a)
            continue
        has, get = at[a]
        E.oblige(all_in(lambda i: band(has(lf(i)), eq(get(lf(i)), f(i))), n), tag + 'every label has its own ' + a)


# ---------------------------------------------------------------- sample paths and structure estimators

def sample_path(E, I, edges=True, **more):
    """a sample path as the library builds it (C07): distinct labels, the i-th variable has column index i, any declared edges, any trajectories"""
    st, env = structure(E, I, edges)
    n, xf = env['n'], env['xf']
    E.assume(forall(lambda i: imp(inrange(i, n), xf(i) == i), I_, pat=lambda i: xf(i)))
    E.assume(env['V'] == n)
    sp = inst(E, I, 'SamplePath', _structure=st, _total_variables_count=n, _trajectories=Opaque('anything'), **more)
    env['sp'] = sp
    return sp, env


def label_graph(E, env, tag='est'):
    """any graph whose nodes are the labels"""
    isl = env['isl']
    N, P = E.fresh(SetL, tag + '_nodes'), E.fresh(z3.ArraySort(Lbl, SetL), tag + '_preds')
    E.assume(forall(lambda x: Select(N, x) == isl(x), Lbl, pat=lambda x: Select(N, x)))
    E.assume(forall(lambda x, y: imp(Select(Select(P, y), x), And(isl(x), isl(y))), Lbl, Lbl, pat=lambda x, y: Select(Select(P, y), x)))
    E.assume(forall(lambda y: Card(Select(P, y)) >= 0, Lbl, pat=lambda y: Card(Select(P, y))))
    g = PGraph.empty(E)
    g.set(nodes=N, preds=P)
    return g, N, P


def estimator(E, I, cls, sp, env, **more):
    """an estimator over the sample path sp with an arbitrary matrix of removable edges"""
    n, lf, vf, xf = [env[k] for k in 'n lf vf xf'.split()]
    rem = Function(E.name('removable'), I_, I_, B)
    g, N, P = label_graph(E, env)
    at = dict(_sample_path=sp, _nodes=PArr.of(E, 'l', (n,), lambda i: lf(z(i[0])), inv=lambda l: env['lg'](lab(l))), _nodes_vals=env['st'].d['_nodes_vals_arr'], _nodes_indxs=env['st'].d['_nodes_indexes_arr'],
              _removable_edges_matrix=PArr.of(E, 'b', (n, n), lambda ix: rem(z(ix[0]), z(ix[1]))), _complete_graph=g)
    at.update(more)
    env.update(est=inst(E, I, cls, **at), rem=rem, cg=g, cgP=P, cgN=N)
    return env['est']
