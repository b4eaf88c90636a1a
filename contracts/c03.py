"""C03: configuration table."""
NOTE = 'contracts/c03.py: the table function is proved for every list of cardinalities; numpy meshgrid/reshape as axiomatised. The alignment with the matrix order is the digit statement shared with C01/C02.'

from pyver.harness import *


def digit(v, i, j):
    """state of parent j in configuration i: mixed radix, first parent fastest"""
    P = ProdI(lam(lambda q: zi(v(q))), z(j))
    return zmod(zdiv(z(i), P), zi(v(j)))


def zdiv(a, b):
    return a / b


def zmod(a, b):
    return a % b


def table_post(E, out, v, K):
    E.oblige(len(out.shape) == 2, 'the table has two dimensions')
    P = mk_prod(lambda q: zi(v(q)), K)
    E.oblige(eq(out.shape[0], P), 'one row per combination')
    E.oblige(eq(out.shape[1], K), 'one column per parent')
    E.oblige(all_in(lambda i: all_in(lambda j: eq(out.get(i, j), digit(v, i, j)), out.shape[1]), P), 'row i holds the mixed-radix digits of i, first parent fastest')
    E.oblige(all_in(lambda i: all_in(lambda j: band(le(0, out.get(i, j)), lt(out.get(i, j), v(j))), out.shape[1]), P), 'every entry is below the cardinality of its own parent')


def run(ctx):
    def setup(E, I):
        K = E.fresh(I_, 'K')
        E.assume(K >= 0)
        L, v = symlist(E, 'v', K)
        E.assume(forall(lambda j: imp(inrange(j, K), v(j) >= 1), I_, pat=lambda j: v(j)))
        return None, [L], {}, dict(K=K, v=v)

    def post(E, I, env, out):
        K, v = env['K'], env['v']
        table_post(E, out, lambda j: v(z(j)), K)
    ctx.verify('NetworkGraph.build_p_comb_structure_for_a_node', setup, post)
