"""C10: decision rule of the pairwise independence test; degrees of freedom of the comparison."""
NOTE = ('contracts/c10.py: independence_test for any two count matrices and intensity matrices of any size, any quantile functions (scipy.stats.f.ppf and chi2.ppf uninterpreted), any levels and threshold; '
        'compute_thumb_value for any parent set; square root and division as real functions (a quotient with a zero denominator is an arbitrary number: the NaN comparisons of floating point are not modelled).')

from .common import *
from pyver.lib import FPPF, CHI2PPF, SQRT


def run(ctx):
    def cim(E, I, tag, n):
        M, fm = intarr(E, tag + '_M', n, n)
        C, fc = realarr(E, tag + '_C', n, n)
        T, _ = realarr(E, tag + '_T', n)
        E.assume(forall(lambda i, j: imp(And(0 <= i, i < n, 0 <= j, j < n), fm(i, j) >= 0), I_, I_, pat=lambda i, j: fm(i, j)))
        return inst(E, I, 'ConditionalIntensityMatrix', _state_residence_times=T, _state_transition_matrix=M, _cim=C), fm, fc

    def setup(E, I):
        n = E.fresh(I_, 'states')
        E.assume(n >= 2)
        c1, m1, k1 = cim(E, I, 'first', n)
        c2, m2, k2 = cim(E, I, 'second', n)
        V, pi, ci = E.fresh(I_, 'V'), E.fresh(I_, 'pi'), E.fresh(I_, 'ci')
        E.assume(And(0 <= pi, pi < V, 0 <= ci, ci < V))
        rem = Function(E.name('removable'), I_, I_, B)
        ea, ca, thr, th = [E.fresh(R, k) for k in ('exp_alfa', 'chi_alfa', 'threshold', 'thumb')]
        E.assume(Implies(n > 2, th > 0))
        est = inst(E, I, 'StructureConstraintBasedEstimator', _removable_edges_matrix=PArr.of(E, 'b', (V, V), lambda ix: rem(z(ix[0]), z(ix[1]))),
                   _exp_test_sign=ea, _chi_test_alfa=ca, _thumb_threshold=thr)
        return est, [n, c1, c2, th, pi, ci], {}, dict(est=est, n=n, m1=m1, m2=m2, k1=k1, k2=k2, c1=c1, c2=c2, V=V, pi=pi, ci=ci, rem=rem, ea=ea, ca=ca, thr=thr, th=th)

    def post(E, I, env, out):
        n, m1, m2, k1, k2, V, pi, ci, rem, ea, ca, thr, th = [env[k] for k in 'n m1 m2 k1 k2 V pi ci rem ea ca thr th'.split()]
        few = And(n > 2, zr(mk_sum(lambda i: m1(i, i), n)) / th < thr)
        r1, r2 = (lambda i: zr(m1(z(i), z(i)))), (lambda i: zr(m2(z(i), z(i))))
        ratio = lambda i: k2(z(i), z(i)) / k1(z(i), z(i))
        f_ok = lambda i: And(ratio(i) >= FPPF(ea / 2, r1(i), r2(i)), ratio(i) <= FPPF(1 - ea / 2, r1(i), r2(i)))
        off = lambda j, i: ite(lt(j, i), z(j), z(j) + 1)
        K, L = (lambda i: SQRT(r1(i) / r2(i))), (lambda i: SQRT(r2(i) / r1(i)))
        term = lambda i, j: (K(i) * zr(m2(z(i), off(j, i))) - L(i) * zr(m1(z(i), off(j, i))))
        chi = lambda i: mk_sum(lambda j: term(i, j) * term(i, j) / (zr(m1(z(i), off(j, i))) + zr(m2(z(i), off(j, i)))), n - 1)
        q = CHI2PPF(1 - ca, zr(n) - 1)
        o = zb(out)
        E.oblige(imp(few, Not(o)), 'too few transitions: dependent')
        E.oblige(imp(And(Not(few), o), all_in(lambda i: f_ok(i), n)), 'independent only if every ratio of exit intensities lies within its quantiles')
        E.oblige(imp(And(Not(few), o), all_in(lambda i: chi(i) <= q, n)), 'independent only if no chi-square statistic exceeds its quantile')
        E.oblige(imp(And(Not(few), all_in(lambda i: And(f_ok(i), chi(i) <= q), n)), o), 'independent when all the statistics are within their quantiles')
        mat = env['est'].d['_removable_edges_matrix']
        E.oblige(band(eq(mat.shape[0], V), eq(mat.shape[1], V)), 'the matrix of removable edges keeps its shape')
        E.oblige(all_in(lambda a: all_in(lambda b: iff(mat.get(a, b), And(rem(z(a), z(b)), Not(And(few, z(a) == pi, z(b) == ci)))), V), V), 'only an edge with too few observations becomes non-removable')
        for c, m, k, t in ((env['c1'], m1, k1, 'first'), (env['c2'], m2, k2, 'second')):
            E.oblige(all_in(lambda a: all_in(lambda b: band(eq(c.d['_state_transition_matrix'].get(a, b), m(z(a), z(b))), eq(c.d['_cim'].get(a, b), k(z(a), z(b)))), n), n), 'the %s statistics are not modified' % t)
    ctx.verify('StructureConstraintBasedEstimator.independence_test', setup, post)

    def s_df(E, I):
        K, p, c = E.fresh(I_, 'K'), E.fresh(I_, 'pv'), E.fresh(I_, 'cv')
        E.assume(And(K >= 0, p >= 1, c >= 1))
        vals, vf = intarr(E, 'v', K)
        return inst(E, I, 'StructureConstraintBasedEstimator'), [p, c, vals], {}, dict(K=K, p=p, c=c, v=vf)

    def p_df(E, I, env, out):
        K, p, c, v = [env[k] for k in 'K p c v'.split()]
        E.oblige(eq(out, (c - 1) * (c - 1) * p * mk_prod(lambda k: v(z(k)), K)), '(child states - 1)^2 times the cardinalities of the tested parent and of the separating set')
    ctx.verify('StructureConstraintBasedEstimator.compute_thumb_value', s_df, p_df)
