"""C22: random intensity matrices are valid and cover every configuration."""
from .common import *
from pyver.lib import RND
from . import lemmas
from .c03 import digit

NOTE = ('contracts/c22.py: a generated matrix is executed for every cardinality from 2 on, every range 0 <= min <= max and every outcome of the draws: signs, diagonal and exact row sums before rounding are proved, and the '
        'rounding error is added by a lemma. generate_cims is executed for an arbitrary network (nodes, cardinalities, parents): one matrix of its own cardinality per row of the configuration table of the parents in '
        'variable order (tables by the contract of C03, order by C20). Draws are positive (zero has probability zero); numpy.around is within half a unit of the fourth decimal and keeps signs; reals for floats.')
EPS = Fraction(1, 20000)        # rounding to 4 decimals


def run(ctx):
    lemmas.sums_of_rounded(ctx)

    def rounding(E):
        x = Const(E.name('x'), R)
        for d in (4,):
            E.assume(ForAll([x], And(RND(x, d) - x <= EPS, x - RND(x, d) <= EPS, Implies(x >= 0, RND(x, d) >= 0), Implies(x <= 0, RND(x, d) <= 0)), patterns=[RND(x, d)]))

    def setup(E, I):
        n = E.fresh(I_, 'card')
        lo, hi = E.fresh(R, 'min'), E.fresh(R, 'max')
        E.assume(And(n >= 2, 0 <= lo, lo <= hi))
        E.draws = []
        rounding(E)
        g = inst(E, I, 'NetworkGenerator', _labels=Opaque('anything'), _vals=Opaque('anything'), _indxs=Opaque('anything'), _graph=None, _cims=None)
        return g, [lo, hi, n], {}, dict(n=n, lo=lo, hi=hi)

    def post(E, I, env, out):
        n, lo, hi = [env[k] for k in 'n lo hi'.split()]
        E.oblige(isinstance(out, PArr) and len(out.shape) == 2, 'a matrix')
        E.oblige(band(eq(out.shape[0], n), eq(out.shape[1], n)), 'square, of the cardinality of the node')
        c = lambda a, b: zr(out.get(a, b))

        # the row before its entries were rounded
        def exact(t):
            rs = [x for x in subterms(t) if z3.is_app(x) and x.decl().eq(RND)]
            return z3.substitute(t, *[(x, x.arg(0)) for x in rs]) if rs else t
        x = lambda a, b: exact(z3.simplify(c(a, b)))
        rows = lambda g: all_in(lambda i: g(zi(i)), n)
        E.oblige(rows(lambda i: all_in(lambda j: imp(i != j, x(i, j) >= 0), n)), 'off-diagonal entries are not negative before they are rounded')
        E.oblige(rows(lambda i: all_in(lambda j: imp(i != j, c(i, j) >= 0), n)), 'off-diagonal entries are not negative')
        E.oblige(rows(lambda i: And(-hi - EPS <= c(i, i), c(i, i) <= -lo + EPS)), 'the diagonal is between -max and -min')
        E.oblige(rows(lambda i: all_in(lambda j: And(c(i, j) - x(i, j) <= EPS, x(i, j) - c(i, j) <= EPS), n)), 'entries are rounded to 4 decimals at most')
        rc, rx = Function(E.name('row_sum'), I_, R), Function(E.name('exact_row_sum'), I_, R)
        for f, e in ((rc, c), (rx, x)):
            E.assume(forall(lambda i: imp(inrange(i, n), f(i) == zr(mk_sum(lambda q: e(i, q), n))), I_, pat=lambda i: f(i)))
        E.oblige(rows(lambda i: eq(mk_sum(lambda q: x(i, q), n), zr(0))), 'every row sums to zero before its entries are rounded')
        E.oblige(rows(lambda i: rx(i) == 0), 'every row sums to zero before its entries are rounded (named)')
        # lemma 'sum of roundings', at the rows
        E.assume(forall(lambda i: imp(inrange(i, n), And(rc(i) - rx(i) <= zr(n) * EPS, rx(i) - rc(i) <= zr(n) * EPS)), I_, pat=lambda i: rc(i)))
        E.oblige(rows(lambda i: And(rc(i) <= zr(n) * EPS, rc(i) >= -zr(n) * EPS)), 'every row sums to zero up to the rounding of its entries')

    # generate_cims: the network is any network over the labels; tables by the contract of C03, matrices by the contract above
    ENTRY = Function('IS_ENTRY', R, I_, I_, I_, B)          # entry (a, b) of a matrix generated for a cardinality
    ORD = Function('PARENT_IN_ORDER', Lbl, I_, Lbl)         # the parents in variable order (C20)

    def s_all(E, I):
        net, env = network(E, I)
        n, lf, lg, vf = [env[k] for k in 'n lf lg vf'.split()]
        st = env['st']
        lo, hi = E.fresh(R, 'min'), E.fresh(R, 'max')
        E.assume(And(0 <= lo, lo <= hi, n >= 1))
        env.update(lo=lo, hi=hi, facts=[])
        vals = PList.sym(E, n, lambda i: vf(z(i)))

        def matrix(E, self=None, min_val=None, max_val=None, shape=None, **_):
            E.oblige(band(eq(zr(min_val), lo), eq(zr(max_val), hi)), 'coefficients in the range asked for')
            E.oblige(le(2, shape), 'a matrix of a node')
            f = E.freshfn('generated', I_, I_, R)
            a, b = Int('a?'), Int('b?')
            env['facts'].append((tuple(E.gvars), (a, b), imp(And(inrange(a, shape), inrange(b, shape)), ENTRY(f(a, b), a, b, zi(shape)))))
            return PArr.of(E, 'r', (shape, shape), lambda ix: f(zi(ix[0]), zi(ix[1])))
        E.assume(forall(lambda i: imp(inrange(i, n), vf(i) >= 2), I_, pat=lambda i: vf(i)))

        def table(E, parents_values=None, **_):
            K = parents_values.n
            v = parents_values.getter()
            E.oblige(all_in(lambda j: le(1, v(j)), K), 'cardinalities are positive')
            P = mk_prod(lambda q: zi(v(q)), K)
            T = E.freshfn('table', I_, I_, I_)
            q, j = Int('q?'), Int('j?')
            env['facts'].append((tuple(E.gvars), (q, j), imp(And(inrange(q, P), inrange(j, K)), T(q, j) == digit(v, q, j))))
            return PArr.of(E, 'i', (P, K), lambda ix: T(zi(ix[0]), zi(ix[1])))
        def ordered(E, self=None, node=None, **_):
            E.oblige(env['isl'](lab(node)), 'a node of the network')
            x, P = lab(node), env['P']
            K = Card(Select(P, x))
            E.assume(forall(lambda j: imp(inrange(j, K), And(env['isl'](ORD(x, j)), Select(Select(P, x), ORD(x, j)))), I_, pat=lambda j: ORD(x, j)))
            mk = lambda f: PList.sym(E, K, lambda j: f(ORD(x, zi(j))))
            return (mk(lambda l: l), mk(lambda l: env['xf'](lg(l))), mk(lambda l: vf(lg(l))))
        E.contracts = {'NetworkGraph.get_ordered_by_indx_set_of_parents': ordered, 'NetworkGenerator.__generate_cim': matrix, 'NetworkGraph.build_p_comb_structure_for_a_node': table}
        g = inst(E, I, 'NetworkGenerator', _labels=st.d['_nodes_labels_list'], _vals=vals, _indxs=st.d['_nodes_indexes_arr'], _graph=net, _cims=None)
        env['gen'] = g
        return g, [lo, hi], {}, env

    def p_all(E, I, env, out):
        d = env['gen'].d['_cims']
        n, lf, lg, vf, P, xf = [env[k] for k in 'n lf lg vf P xf'.split()]
        E.oblige(isinstance(d, PDict), 'a dictionary')
        i = E.fresh(I_, 'i')
        E.assume(inrange(i, n))
        has, get = d.d['has'], d.d['get']
        E.oblige(has(lf(i)), 'every node has its matrices')
        x = lf(i)
        s = get(x)
        E.oblige(eq(s.d['_node_id'], x), 'the matrices of this node') if isinstance(s, PInst) else None
        E.oblige(isinstance(s, PInst), 'a set of matrices')
        K, v = Card(Select(P, x)), (lambda j: vf(lg(ORD(x, z(j)))))
        N = mk_prod(lambda q: zi(v(q)), K)
        T, C = I.attr(s, 'p_combs'), I.attr(s, 'actual_cims')
        E.oblige(band(eq(T.shape[0], N), eq(T.shape[1], K)), 'the configuration table of the parents: its size')
        q, j, r, a, b = [E.fresh(I_, c) for c in 'qjrab']
        E.assume(And(inrange(q, N), inrange(r, N), inrange(a, vf(i)), inrange(b, vf(i))))
        # the contracts of the calls made for this node (and this configuration), at these entries
        for gv, vs, fact in env['facts']:
            at = (q, j) if len(gv) == 1 and str(vs[0]) == 'q?' else (a, b)
            E.assume(z3.substitute(zb(fact), *(list(zip(gv, (i, r))) + list(zip(vs, at)))))
        E.oblige(imp(inrange(j, K), eq(T.get(q, j), digit(v, q, j))), 'the configuration table of the parents, in variable order')
        E.oblige(eq(C.shape[0] if isinstance(C, PArr) else C.n, N), 'exactly one matrix per configuration')
        m = C.get(r)
        E.oblige(isinstance(m, PInst), 'a conditional intensity matrix')
        M = I.attr(m, 'cim')
        E.oblige(band(eq(M.shape[0], vf(i)), eq(M.shape[1], vf(i))), 'every matrix has the cardinality of its own node')
        E.oblige(ENTRY(zr(M.get(a, b)), a, b, vf(i)), 'and holds the entries that were generated')
    ctx.verify('NetworkGenerator.generate_cims', s_all, p_all)

    ctx.verify('NetworkGenerator.__generate_cim', setup, post)
