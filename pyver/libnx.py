"""networkx.DiGraph and queue.Queue."""
import z3
from .terms import *
from .engine import *
from .values import *
from .lib import fn, prop, iterate, quick, FN, GETITEM, SETITEM, kind_of, card_store, LEN, edge_iter, enum_set, eqdim, ITER, pairs_has
from .interp import conc_b

IS = z3.IntSort()
EMPTY = z3.K(Lbl, BoolVal(False))


@fn('networkx.DiGraph')
def nx_digraph(I, data=None):
    g = PGraph.empty(I.E)
    if data is not None:
        if isinstance(data, PGraph):
            g.set(nodes=data.d['nodes'], preds=data.d['preds'], attrs=data.d['attrs'])
        else:
            nx_add_edges(I, g, data)
            g.d['log'] = ()
    return g


def put_node(E, g, x):
    x = lab(x)
    nodes = g.d['nodes']
    if z3.is_true(z3.simplify(zb(sel(nodes, x)))):
        return
    g.set(nodes=z3.Store(nodes, x, BoolVal(True)))


def put_edge(E, g, a, b):
    a, b = lab(a), lab(b)
    put_node(E, g, a)
    put_node(E, g, b)
    preds = g.d['preds']
    pb = sel(preds, b)
    new = card_store(E, pb, a, True)
    g.set(preds=z3.Store(preds, b, new), log=g.d['log'] + (('edge', a, b),))


def del_edge(E, g, a, b):
    a, b = lab(a), lab(b)
    preds = g.d['preds']
    pb = sel(preds, b)
    new = card_store(E, pb, a, False)
    g.set(preds=z3.Store(preds, b, new), log=g.d['log'] + (('unedge', a, b),))


@fn('graph.add_node')
def nx_add_node(I, g, x, **attrs):
    E = I.E
    put_node(E, g, x)
    for k, v in attrs.items():
        old = g.attr(k)
        xl = lab(x)

        def has(y, old=old, xl=xl):
            return bor(eq(lab(y), xl), old[0](y) if old else False)

        def get(y, old=old, v=v, xl=xl):
            c = eq(lab(y), xl)
            if old is None or c is True:
                return v
            return old[1](y) if c is False else merge_val(E, c, v, old[1](y))
        g.setattr_(k, (has, get))
    g.set(log=g.d['log'] + (('node', lab(x), tuple(sorted(attrs.items(), key=lambda kv: kv[0]))),))


@fn('graph.add_nodes_from')
def nx_add_nodes(I, g, l, **attrs):
    E = I.E
    if attrs:
        raise Unsupported('add_nodes_from attributes')
    it = iterate(I, l)
    if isinstance(it.n, int) and it.n <= 8:
        for k in range(it.n):
            put_node(E, g, it.fn(IntVal(k)))
        return
    old = g.d['nodes']
    S = E.fresh(SetL, 'nodes')
    x, q = bvar(Lbl, 'l'), bvar(IS, 'q')
    inv = getattr(it, 'inv', None)
    mem = (lambda y: zb(band(inrange(inv(y), it.n), eq(it.fn(inv(y)), y)))) if inv is not None else (lambda y: zb(mk_any(lambda i: veq(it.fn(i), y), it.n)))
    E.assume(ForAll([x], Select(S, x) == Or(zb(sel(old, x)), mem(x)), patterns=[Select(S, x)]))
    E.assume(ForAll([q], Implies(zb(inrange(q, it.n)), Select(S, lab(it.fn(q))))))
    g.set(nodes=S, log=g.d['log'] + (('bulk',),))


@fn('graph.add_edge')
def nx_add_edge(I, g, a, b):
    put_edge(I.E, g, a, b)


@fn('graph.add_edges_from')
def nx_add_edges(I, g, l):
    E = I.E
    if isinstance(l, Opaque) and l.kind in ('edgeset', 'chain', 'gridlist'):
        return bulk_edges(E, g, pairs_has(I, l), wit=getattr(l, 'wit', None))
    it = iterate(I, l)
    if isinstance(it.n, int) and it.n <= 8:
        for k in range(it.n):
            e = it.fn(IntVal(k))
            a, b = pair_of(I, e)
            put_edge(E, g, a, b)
        return
    if hasattr(it, 'has'):
        return bulk_edges(E, g, it.has)
    n, f = it.n, it.fn
    inv = getattr(it, 'inv', None)
    probe = f(bvar(IS))
    if not isinstance(probe, tuple):
        raise Unsupported('edge list')
    # common head (all pairs (x_i, h) with x_i enumerated without repetition): keep the set explicit
    has = lambda e: mk_any(lambda i: veq(f(i), (lab(e[0]), lab(e[1]))), n)
    wit = lambda i: f(i)
    bulk_edges(E, g, has, (n, f))


def pair_of(I, e):
    if isinstance(e, tuple):
        return e[0], e[1]
    it = iterate(I, e)
    return it.fn(IntVal(0)), it.fn(IntVal(1))


def okpat(t):
    """t as a pattern, if it is one"""
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        return {}
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE or x.sort() == z3.BoolSort() and x is not t:
                return {}
            todo.extend(x.children())
        elif not z3.is_var(x):
            return {}
    return dict(patterns=[t])


def bulk_edges(E, g, has, enum=None, wit=None):
    old, oldn = g.d['preds'], g.d['nodes']
    PS = ArraySort(Lbl, SetL)
    P = E.fresh(PS, 'preds')
    N = E.fresh(SetL, 'nodes')
    x, y, q = bvar(Lbl, 'l'), bvar(Lbl, 'l'), bvar(IS, 'q')
    if enum is not None and wit is None:
        wit = (enum[0], lambda i, e: veq(enum[1](i), e))
    if wit is not None:
        # has(e) holds exactly for some index: name it
        wn, at = wit
        i0, x0, y0 = bvar(IS, 'i'), bvar(Lbl, 'l'), bvar(Lbl, 'l')
        if enum is not None:
            e0 = enum[1](i0)
            goal = Implies(zb(inrange(i0, wn)), And(zb(sel(oldn, lab(e0[0]))), zb(sel(oldn, lab(e0[1])))))
        else:
            goal = Implies(And(zb(inrange(i0, wn)), zb(at(i0, (x0, y0)))), And(zb(sel(oldn, x0)), zb(sel(oldn, y0))))
        if quick(E, goal, 400):
            N = oldn        # every edge joins nodes that are there already
        w = E.freshfn('edgeidx', Lbl, Lbl, IS)
        had = has
        has = lambda e: band(inrange(w(lab(e[0]), lab(e[1])), wn), at(w(lab(e[0]), lab(e[1])), (lab(e[0]), lab(e[1]))))
        if enum is not None:
            E.assume(ForAll([q], Implies(zb(inrange(q, wn)), zb(has(enum[1](q))))))
        else:
            aq = zb(at(q, (x, y)))
            E.assume(ForAll([q, x, y], Implies(And(zb(inrange(q, wn)), aq), zb(has((x, y)))), **okpat(aq)))
    E.assume(ForAll([x, y], Select(Select(P, y), x) == Or(zb(sel(sel(old, y), x)), zb(has((x, y)))), patterns=[Select(Select(P, y), x)]))
    if N is not oldn:
        o = E.freshfn('other', Lbl, Lbl)
        E.assume(ForAll([x], Implies(Select(N, x), Or(zb(sel(oldn, x)), zb(has((x, o(x)))), zb(has((o(x), x))))), patterns=[Select(N, x)]))
        E.assume(ForAll([x], Implies(zb(sel(oldn, x)), Select(N, x)), patterns=[Select(N, x)]))
        E.assume(ForAll([x, y], Implies(zb(has((x, y))), And(Select(N, x), Select(N, y))), patterns=[Select(Select(P, y), x)]))
    if enum is not None:
        n, f = enum
        E.assume(ForAll([q], Implies(zb(inrange(q, n)), Select(Select(P, lab(f(q)[1])), lab(f(q)[0])))))
    E.assume(ForAll([y], Card(Select(P, y)) >= 0, patterns=[Card(Select(P, y))]))
    g.set(preds=P, nodes=N, log=g.d['log'] + (('bulk',),))


@fn('graph.remove_edge')
def nx_rem_edge(I, g, a, b):
    e = g.edge(a, b)
    if not (e is True or quick(I.E, e) or I.E.branch(zb(e))):
        raise PyRaise('NetworkXError')
    del_edge(I.E, g, a, b)


@fn('graph.remove_edges_from')
def nx_rem_edges(I, g, l):
    E = I.E
    it = iterate(I, l)
    if isinstance(it.n, int) and it.n <= 8:
        for k in range(it.n):
            a, b = pair_of(I, it.fn(IntVal(k)))
            del_edge(E, g, a, b)
        return
    raise Unsupported('remove_edges_from a symbolic list')


@fn('graph.remove_node')
def nx_rem_node(I, g, x):
    E = I.E
    m = g.node(x)
    if not (m is True or quick(E, m) or E.branch(zb(m))):
        raise PyRaise('NetworkXError')
    x = lab(x)
    old = g.d['preds']
    P = E.fresh(ArraySort(Lbl, SetL), 'preds')
    a, y = bvar(Lbl, 'l'), bvar(Lbl, 'l')
    E.assume(ForAll([a, y], Select(Select(P, y), a) == And(zb(sel(sel(old, y), a)), a != x, y != x), patterns=[Select(Select(P, y), a)]))
    g.set(nodes=z3.Store(g.d['nodes'], x, BoolVal(False)), preds=P, log=g.d['log'] + (('bulk',),))
    attrs = []
    for k, (h, f) in g.d['attrs']:
        attrs.append((k, ((lambda y, h=h: band(h(y), bnot(eq(lab(y), x)))), f)))
    g.set(attrs=tuple(attrs))


@fn('graph.has_edge')
def nx_has_edge(I, g, a, b):
    return conc_b(g.edge(a, b))


@fn('graph.has_node')
def nx_has_node(I, g, a):
    return conc_b(g.node(a))


@fn('graph.predecessors')
def nx_preds(I, g, x):
    E = I.E
    m = g.node(x)
    if not (m is True or quick(E, m)):
        if not E.branch(zb(m)):
            raise PyRaise('NetworkXError')
    a = sel(g.d['preds'], lab(x))
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return PIter(0, lambda i: POISON)
    l = enum_set(I, PSet.arr(E, a))
    return iterate(I, l)


@fn('graph.successors')
def nx_succs(I, g, x):
    E = I.E
    preds = g.d['preds']
    xl = lab(x)
    y = bvar(Lbl, 'l')
    S = E.fresh(SetL, 'succs')
    E.assume(ForAll([y], Select(S, y) == zb(sel(sel(preds, y), xl)), patterns=[Select(S, y)]))
    return iterate(I, enum_set(I, PSet.arr(E, S)))


@fn('graph.in_edges')
def nx_in_edges(I, g, x):
    preds, xl = g.d['preds'], lab(x)
    return Opaque('edgeset', has=lambda e: band(eq(lab(e[1]), xl), sel(sel(preds, xl), lab(e[0]))))


@prop('graph', 'edges')
def g_edges(I, g):
    preds = g.d['preds']
    return Opaque('edgeset', has=lambda e: sel(sel(preds, lab(e[1])), lab(e[0])))


@prop('graph', 'nodes')
def g_nodes(I, g):
    return Opaque('graphnodes', g=g)


GETITEM['graphnodes'] = lambda I, v, ix: Opaque('nodeattrs', g=v.g, x=need_node(I, v.g, ix))
LEN['graphnodes'] = lambda I, v: Card(v.g.d['nodes'])


def need_node(I, g, x):
    m = g.node(x)
    if not (m is True or quick(I.E, m) or I.E.branch(zb(m))):
        raise PyRaise('KeyError')
    return lab(x)


def _nodeattr(I, v, k):
    at = v.g.attr(k)
    if at is None:
        raise PyRaise('KeyError')
    has, get = at
    h = has(v.x)
    if not (h is True or quick(I.E, h) or I.E.branch(zb(h))):
        raise PyRaise('KeyError')
    return get(v.x)


GETITEM['nodeattrs'] = _nodeattr


@fn('networkx.get_node_attributes')
def nx_gna(I, g, name):
    at = g.attr(name)
    if at is None:
        return PDict.of(I.E)
    has, get = at
    nodes = g.d['nodes']
    return PDict.sym(I.E, lambda x: band(sel(nodes, lab(x)), has(x)), get)


@fn('networkx.difference')
def nx_difference(I, g, h):
    E = I.E
    a, b = g.d['nodes'], h.d['nodes']
    x = bvar(Lbl, 'l')
    E.oblige(ForAll([x], zb(sel(a, x)) == zb(sel(b, x))), 'graphs have the same nodes')
    r = PGraph.empty(E)
    P = E.fresh(ArraySort(Lbl, SetL), 'preds')
    y = bvar(Lbl, 'l')
    E.assume(ForAll([x, y], Select(Select(P, y), x) == And(zb(sel(sel(g.d['preds'], y), x)), Not(zb(sel(sel(h.d['preds'], y), x)))), patterns=[Select(Select(P, y), x)]))
    r.set(nodes=a, preds=P)
    return r


@fn('networkx.adj_matrix', 'networkx.adjacency_matrix')
def nx_adj(I, g, nodelist=None):
    E = I.E
    if nodelist is None:
        raise Unsupported('adjacency matrix without a node list')
    it = iterate(I, nodelist)
    E.oblige(all_in(lambda i: g.node(it.fn(i)), it.n), 'the node list is in the graph')
    return Opaque('spmat', n=it.n, fn=it.fn, preds=g.d['preds'])


@fn('spmat.toarray', 'spmat.todense')
def sp_toarray(I, m):
    E = I.E
    f, p = m.fn, m.preds
    return PArr.of(E, 'i', (m.n, m.n), lambda idx: ite(sel(sel(p, lab(f(idx[1]))), lab(f(idx[0]))), 1, 0))


@fn('networkx.to_numpy_array', 'networkx.to_numpy_matrix')
def nx_tonp(I, g, nodelist=None):
    return sp_toarray(I, nx_adj(I, g, nodelist))


# ------------------------------------------------------------------------- queue.Queue of labels

@fn('queue.Queue')
def q_new(I, maxsize=0):
    E = I.E
    return PQueue(E, head=0, tail=0, fn=E.freshfn('q0', IntSort(), Lbl), pos=z3.K(Lbl, IntVal(0)), log=())


@fn('queue.put')
def q_put(I, q, x):
    t, f, E = q.d['tail'], q.d['fn'], I.E
    x = lab(x)

    def g(i):
        c = eq(i, t)
        if c is True:
            return x
        old = f(i)
        return x if old is POISON else (old if c is False else If(c, x, old))
    q.set(tail=add(t, 1), fn=g, pos=z3.Store(q.d['pos'], x, zi(t)), log=q.d['log'] + (('put', x),))


@fn('queue.get')
def q_get(I, q, block=True, timeout=None):
    E = I.E
    if block is False:
        return q_getn(I, q)
    h, t = q.d['head'], q.d['tail']
    E.oblige(lt(h, t), 'get on a non-empty queue does not block')
    q.set(head=add(h, 1), log=q.d['log'] + (('get',),))
    return q.d['fn'](z(h))


@fn('queue.get_nowait')
def q_getn(I, q):
    E = I.E
    if not E.branch(zb(lt(q.d['head'], q.d['tail']))):
        raise PyRaise('Empty')
    return q_get(I, q)


@fn('queue.qsize')
def q_size(I, q):
    return sub(q.d['tail'], q.d['head'])


@fn('queue.empty')
def q_empty(I, q):
    return conc_b(eq(q.d['head'], q.d['tail']))


FN['queue.put_nowait'] = q_put
