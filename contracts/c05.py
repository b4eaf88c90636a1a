"""C05: selection of matrices by a mask of parents and a combination of states."""
NOTE = 'contracts/c05.py: filter_cims_with_mask is proved for every table, mask and combination (all four result clauses: every result is a match, order, completeness, count); numpy argwhere/all/fancy indexing as axiomatised.'

from .common import *


def run(ctx):
    def setup(E, I, small):
        c, K = E.fresh(I_, 'ncfg'), E.fresh(I_, 'K')
        E.assume(And(c >= 1, K >= 0))
        E.assume(K <= 1 if small else K >= 2)
        tab, ft = intarr(E, 'tab', c, K)
        fm = Function(E.name('mask'), I_, B)
        mask = PArr.of(E, 'b', (K,), lambda ix: fm(zi(ix[0])))
        fo = Function(E.name('cim'), I_, Lbl)
        cims = PArr.of(E, 'o', (c,), lambda ix: fo(zi(ix[0])))
        ml = Lambda_b(lambda j: fm(j))
        m = Cnt(ml, K)
        fc = Function(E.name('comb'), I_, I_)
        comb = PArr.of(E, 'i', (m,), lambda ix: fc(zi(ix[0])))
        E.assume(And(m >= 0, Implies(K >= 0, m <= K)))
        o = inst(E, I, 'SetOfCims', _actual_cims=cims, _p_combs=tab, _node_id=E.fresh(Lbl, 'id'))
        return o, [mask, comb], {}, dict(o=o, c=c, K=K, tab=ft, mask=fm, cim=fo, comb=fc, ml=ml, m=m)

    def table_kept(E, env):
        o, c, K = env['o'], env['c'], env['K']
        E.oblige(all_in(lambda i: all_in(lambda j: eq(o.d['_p_combs'].get(i, j), env['tab'](z(i), z(j))), K), c), 'the table is not modified')
        E.oblige(band(eq(o.d['_actual_cims'].shape[0], c), all_in(lambda i: eq(o.d['_actual_cims'].get(i), env['cim'](z(i))), c)), 'the stored matrices are not modified')

    def post_small(E, I, env, out):
        c = env['c']
        E.oblige(band(eq(length(out), c), all_in(lambda i: eq(out.get(i), env['cim'](z(i))), c)), 'all the matrices, in order')
        table_kept(E, env)

    def post(E, I, env, out):
        c, K, tab, mask, cim, comb, ml, m = [env[k] for k in 'c K tab mask cim comb ml m'.split()]
        match = lambda i: all_in(lambda k: eq(tab(z(i), Sel(ml, K, zi(k))), comb(z(k))), m)
        l = Lambda_b(lambda i: match(i))
        n = length(out)
        E.oblige(eq(n, Cnt(l, c)), 'as many matrices as matching configurations')
        E.oblige(all_in(lambda q: eq(out.get(q), cim(Sel(l, c, zi(q)))), n), 'result q is the matrix of the q-th matching configuration, in configuration order')
        table_kept(E, env)
    ctx.verify('SetOfCims.filter_cims_with_mask', lambda E, I: setup(E, I, True), post_small, label='SetOfCims.filter_cims_with_mask (at most one parent)')
    ctx.verify('SetOfCims.filter_cims_with_mask', lambda E, I: setup(E, I, False), post, label='SetOfCims.filter_cims_with_mask (two or more parents)')


def length(o):
    return o.n if isinstance(o, PList) else o.shape[0]
