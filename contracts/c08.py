"""C08: the family score is the closed form of the CTBN Bayesian score of the counts."""
NOTE = ('contracts/c08.py: get_fam_score and every function it calls are executed on a symbolic list of matrices of symbolic size; the result is proved equal to the closed form '
        'for all counts, times and hyperparameters. loggamma and log are uninterpreted functions of the reals, so the formula is proved term by term; floats are reals.')

from .common import *
from pyver.lib import LGAM, LOG


def theta(al, be, x, n, M):
    """marginal log-likelihood of the jumps out of x"""
    return (LGAM(al) - LGAM(al + M(x, x))) + SumR(lam(lambda y: zr(ite(eq(y, x), z3.RealVal(0), LGAM(be + M(x, y)) - LGAM(be)))), zi(n))


def sojourn(al, tau, m, t):
    return LGAM(al + m + 1) + LOG(tau) * (al + 1) - (LGAM(al + 1) + LOG(tau + t) * (al + m + 1))


def run(ctx):
    def setup(E, I):
        n, c = E.fresh(I_, 'n'), E.fresh(I_, 'ncfg')
        al, tau = E.fresh(R, 'alpha'), E.fresh(R, 'tau')
        E.assume(And(n >= 2, c >= 1, al > 0, tau > 0))
        M, fm = intarr(E, 'M', c, n, n)
        T, ft = realarr(E, 'T', c, n)
        E.assume(forall(lambda k, x: imp(band(inrange(k, c), inrange(x, n)), ft(k, x) >= 0), I_, I_, pat=lambda k, x: ft(k, x)))
        E.assume(forall(lambda k, x, y: imp(band(inrange(k, c), inrange(x, n), inrange(y, n)), fm(k, x, y) >= 0), I_, I_, I_, pat=lambda k, x, y: fm(k, x, y)))
        ci = I.repo.classes['ConditionalIntensityMatrix']
        mk = lambda k: PInst(E, ci, dict(_state_residence_times=PArr.of(E, 'r', (n,), lambda ix: ft(z(k), z(ix[0]))),
                                         _state_transition_matrix=PArr.of(E, 'i', (n, n), lambda ix: fm(z(k), z(ix[0]), z(ix[1]))), _cim=POISON))
        cims = PArr.of(E, 'o', (c,), lambda ix: mk(ix[0]))
        return inst(E, I, 'FamScoreCalculator'), [cims, tau, al], {}, dict(n=n, c=c, al=al, tau=tau, M=fm, T=ft)

    def post(E, I, env, out):
        n, c, al, tau, M, T = [env[k] for k in 'n c al tau M T'.split()]
        be = al / z3.ToReal(n - 1)
        q = SumR(lam(lambda k: SumR(lam(lambda x: sojourn(al, tau, z3.ToReal(M(k, x, x)), T(k, x))), zi(n))), zi(c))
        th = SumR(lam(lambda k: SumR(lam(lambda x: theta(al, be, x, n, lambda a, b: z3.ToReal(M(k, a, b)))), zi(n))), zi(c))
        E.oblige(eq(out, q + th), 'the score is the sum over configurations and states of the sojourn and transition terms')
    ctx.verify('FamScoreCalculator.get_fam_score', setup, post)
