"""C21: random graphs are simple and have the density asked for."""
NOTE = ('contracts/c21.py: generate_graph is executed for any list of distinct labels, cardinalities, density and outcome of the draws. With a fixed density the edges are a duplicate-free enumeration of as many '
        'pairs as the density says, and it raises only when that is no integer; otherwise the edge between two different nodes is decided by the draw made for this pair with the given probability. '
        'random.shuffle permutes; a call of numpy.random.binomial(1, p) or of a uniform generator in each iteration is a draw of its own. Densities are reals between 0 and 1 (no rounding).')

from .common import *
from . import lemmas


def run(ctx):
    lemmas.pairs_of_a_square(ctx)

    def setup(E, I, fixed):
        n = E.fresh(I_, 'n')
        E.assume(n >= 1)
        labels, lf, lg = label_list(E, 'label', n)
        vf = Function(E.name('val'), I_, I_)
        E.assume(forall(lambda i: imp(inrange(i, n), vf(i) >= 1), I_, pat=lambda i: vf(i)))
        vals = PList.sym(E, n, lambda i: vf(z(i)))
        d = E.fresh(R, 'density')
        E.assume(And(0 <= d, d <= 1))
        E.draws = []
        g = I.instantiate(I.repo.classes['NetworkGenerator'], [labels, vals], {})
        return g, [d, fixed], {}, dict(g=g, n=n, lf=lf, lg=lg, vf=vf, d=d, draws=E.draws, labels=labels)

    def graph(E, I, env):
        g, n, lf, lg, vf = [env[k] for k in 'g n lf lg vf'.split()]
        net = g.d['_graph']
        E.oblige(isinstance(net, PInst), 'a network is made')
        G = net.d['_graph']
        x = E.fresh(Lbl, 'x')
        E.oblige(iff(G.node(x), And(0 <= lg(x), lg(x) < n, lf(lg(x)) == x)), 'the nodes are the labels')
        at = dict(G.d['attrs'])
        i = E.fresh(I_, 'i')
        E.assume(inrange(i, n))
        E.oblige(band(at['val'][0](lf(i)), eq(at['val'][1](lf(i)), vf(i))), 'every node has its cardinality')
        return net, G

    def p_fixed(E, I, env, out):
        n, lf, lg, d = [env[k] for k in 'n lf lg d'.split()]
        net, G = graph(E, I, env)
        E.oblige(z3.IsInt(d * n * (n - 1)), 'no graph is returned when the number of edges asked for is no integer')
        es = I.attr(net.d['_graph_struct'], 'edges')
        E.oblige(isinstance(es, PList), 'a list of edges')
        E.oblige(eq(zr(es.n), d * n * (n - 1)), 'as many edges as the density asks for')
        a, b = E.fresh(I_, 'a'), E.fresh(I_, 'b')
        E.assume(And(inrange(a, es.n), inrange(b, es.n)))
        ea, eb = es.get(a), es.get(b)
        E.oblige(imp(band(eq(ea[0], eb[0]), eq(ea[1], eb[1])), a == b), 'no edge twice')
        E.oblige(G.edge(ea[0], ea[1]), 'each of them is an edge of the graph')
        E.oblige(bnot(eq(ea[0], ea[1])), 'no self loop')
        x, y = E.fresh(Lbl, 'x'), E.fresh(Lbl, 'y')
        E.assume(zb(G.edge(x, y)))
        E.oblige(pairs_member(E, I, es, x, y), 'and there is no other edge')

    def p_draw(E, I, env, out):
        n, lf, lg, d = [env[k] for k in 'n lf lg d'.split()]
        net, G = graph(E, I, env)
        x = E.fresh(Lbl, 'x')
        E.oblige(bnot(G.edge(x, x)), 'no self loop')
        dr = env['draws']
        E.oblige(len(dr) == 1 and len(dr[0][1]) == 2, 'a draw of its own for every ordered pair')
        if len(dr) != 1 or len(dr[0][1]) != 2:
            return
        kind, gv, t, p = dr[0]
        i, j = E.fresh(I_, 'i'), E.fresh(I_, 'j')
        E.assume(And(inrange(i, n), inrange(j, n), i != j))
        at = lambda v: z3.substitute(zr(v), (gv[0], i), (gv[1], j)) if isz(v) else v
        if kind == 'binomial':
            E.oblige(eq(at(p), d), 'drawn with the given probability')
            yes = eq(at(t), 1)
        else:
            yes = at(t) < d
        E.oblige(iff(G.edge(lf(i), lf(j)), yes), 'two different nodes are joined when their draw says so')

    ctx.verify('NetworkGenerator.generate_graph', lambda E, I: setup(E, I, True), p_fixed, label='NetworkGenerator.generate_graph (fixed density)',
               raises=lambda E, I, env, name: band(name == 'RuntimeError', Not(z3.IsInt(env['d'] * env['n'] * (env['n'] - 1)))))
    ctx.verify('NetworkGenerator.generate_graph', lambda E, I: setup(E, I, False), p_draw, label='NetworkGenerator.generate_graph (draws)')
