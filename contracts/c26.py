"""C26: one trajectory per request, each with its own limit and a random state of its own."""
NOTE = ('contracts/c26.py: multi_trajectory is executed for lists of limits of any length, and the worker for every content of the shared list, so for every interleaving of the workers (appending to a manager list is '
        'atomic: assumed of multiprocessing, as is that a process runs its target exactly once between start and join). Each worker takes its random state from the operating system before it samples; '
        'CTBN_Sample itself is the subject of C23 and C24.')

from .common import *
from pyver.values import PList

TRAJ = Function('TRAJECTORY', R, R, Lbl)        # what a worker sampled, by its limits


def run(ctx):
    def prepare(E, I):
        E.started, E.joined = PList.of(E, []), PList.of(E, [])
        E.rng = PInst(E, None, dict(own=False))
        g = inst(E, I, 'TrajectoryGenerator', _importer=None, _generated_trajectory=None)

        def sample(E, self=None, t_end=-1, max_tr=-1, **_):
            E.oblige(E.rng.d['own'], 'the worker has a random state of its own when it samples')
            return TRAJ(zr(t_end), zr(max_tr))
        E.contracts = {'TrajectoryGenerator.CTBN_Sample': sample}
        return g

    def setup(E, I, ends, trs):
        g = prepare(E, I)
        kw, env = {}, {}
        for nm, on, srt in (('t_ends', ends, R), ('max_trs', trs, I_)):
            if on:
                n = E.fresh(I_, 'n_' + nm)
                E.assume(n >= 0)
                f = Function(E.name(nm), I_, srt)
                kw[nm] = PList.sym(E, n, lambda k, f=f: f(z(k)))
                env[nm] = (n, f)
        return g, [], kw, env

    def post(E, I, env, out):
        n, f = env['t_ends'] if 't_ends' in env else env['max_trs']
        want = (lambda k: TRAJ(zr(f(z(k))), z3.RealVal(-1))) if 't_ends' in env else (lambda k: TRAJ(z3.RealVal(-1), zr(f(z(k)))))
        E.oblige(eq(E.started.n, n), 'one process is started per request')
        E.oblige(eq(E.joined.n, n), 'every process has ended')
        E.oblige(isinstance(out, PList), 'a list is returned')
        E.oblige(eq(out.n, n), 'one trajectory per request')
        k = E.fresh(I_, 'k')
        E.assume(inrange(k, n))
        if not (isinstance(out.n, int) and out.n == 0):
            E.oblige(eq(lab(out.get(k)), want(k)), 'sampled with its own limit')

    for ends, trs in ((True, False), (False, True), (True, True)):
        ctx.verify('TrajectoryGenerator.multi_trajectory', lambda E, I, ends=ends, trs=trs: setup(E, I, ends, trs), post,
                   label='TrajectoryGenerator.multi_trajectory (%s)' % ' and '.join(x for x, on in (('end times', ends), ('numbers of transitions', trs)) if on))

    def s_worker(E, I):
        g = prepare(E, I)
        n = E.fresh(I_, 'n')
        E.assume(n >= 0)
        f = Function(E.name('earlier'), I_, Lbl)
        l = PList.sym(E, n, lambda k: f(z(k)))
        l.d['managed'] = True
        te, mt = E.fresh(R, 't_end'), E.fresh(I_, 'max_tr')
        return g, [te, mt, l], {}, dict(n=n, f=f, l=l, te=te, mt=mt)

    def p_worker(E, I, env, out):
        n, f, l, te, mt = [env[k] for k in 'n f l te mt'.split()]
        E.oblige(eq(l.n, n + 1), 'one trajectory is added')
        E.oblige(all_in(lambda k: eq(lab(l.get(z(k))), f(z(k))), n), 'those of the others are kept')
        E.oblige(len(l.d['log']) == 1, 'in one operation on the shared list, which no other worker can interrupt')
        E.oblige(eq(lab(l.get(n)), TRAJ(te, zr(mt))), 'the trajectory added is sampled with its limits')
    ctx.verify('TrajectoryGenerator.worker', s_worker, p_worker)
