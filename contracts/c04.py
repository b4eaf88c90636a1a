"""C04: intensities from counts; counts untouched; one matrix per configuration in order."""
NOTE = 'contracts/c04.py: coefficient formula and frame of the counts for every matrix; one matrix per configuration in order. floats are reals.'

from pyver.harness import *


def cim_post(E, cim_obj, T, M, n, tag):
    """the object holds T, M as given and the intensities derived from them"""
    C = cim_obj.d['_cim']
    E.oblige(band(eq(C.shape[0], n), eq(C.shape[1], n)), tag + 'the matrix is n by n')
    E.oblige(all_in(lambda x: all_in(lambda y: eq(C.get(x, y), ite(eq(x, y), div(sub(1, M(x, y)), add(T(x), 1)), div(add(M(x, y), 1), add(T(x), 1)))), n), n), tag + 'every intensity is the specified quotient')


def run(ctx):
    for counts in ('integers', 'floats'):
        coefficients(ctx, counts)
    build_cims(ctx)


def coefficients(ctx, counts):
    def setup(E, I):
        n = E.fresh(I_, 'n')
        E.assume(n >= 1)
        M, fm = (intarr if counts == 'integers' else realarr)(E, 'M', n, n)
        T, ft = realarr(E, 'T', n)
        E.assume(forall(lambda x: imp(inrange(x, n), ft(x) >= 0), I_))
        return None, [], {'state_residence_times': T, 'state_transition_matrix': M}, dict(n=n, M=fm, T=ft, Ma=M, Ta=T)

    def both(E, I, env):
        o = env['o'] = I.instantiate(I.repo.classes['ConditionalIntensityMatrix'], [], dict(state_residence_times=env['Ta'], state_transition_matrix=env['Ma']))
        I.call_function(ctx.ref('ConditionalIntensityMatrix.compute_cim_coefficients', o), [], {})
        return o

    def post2(E, I, env, out):
        n = env['n']
        env['o'] = out
        cim_post(E, out, env['T'], env['M'], n, '')
        Ma, Ta = I.attr(env['o'], 'state_transition_matrix'), I.attr(env['o'], 'state_residence_times')
        E.oblige(all_in(lambda x: all_in(lambda y: eq(Ma.get(x, y), env['M'](z(x), z(y))), n), n), 'transition counts unchanged')
        E.oblige(all_in(lambda x: eq(Ta.get(x), env['T'](z(x))), n), 'residence times unchanged')
        E.oblige(all_in(lambda x: all_in(lambda y: eq(env['Ma'].get(x, y), env['M'](z(x), z(y))), n), n), 'caller matrix unchanged')
    ctx.verify('ConditionalIntensityMatrix.compute_cim_coefficients', setup, post2, body=both, label='ConditionalIntensityMatrix.compute_cim_coefficients (counts given as %s)' % counts)


def build_cims(ctx):

    # SetOfCims.build_cims
    def setup3(E, I):
        n, c = E.fresh(I_, 'n'), E.fresh(I_, 'ncfg')
        E.assume(n >= 1)
        E.assume(c >= 1)
        M, fm = intarr(E, 'M', c, n, n)
        T, ft = realarr(E, 'T', c, n)
        E.assume(forall(lambda k, x: imp(band(inrange(k, c), inrange(x, n)), ft(k, x) >= 0), I_, I_))
        o = inst(E, I, 'SetOfCims', _node_id=E.fresh(Lbl, 'id'), _actual_cims=PList.of(E, []), _state_residence_times=T, _transition_matrices=M, _p_combs=None)
        return o, [T, M], {}, dict(n=n, c=c, M=fm, T=ft, o=o)

    def post3(E, I, env, out):
        n, c = env['n'], env['c']
        L = env['o'].d['_actual_cims']
        ln = L.shape[0] if isinstance(L, PArr) else L.n
        E.oblige(eq(ln, c), 'one matrix per configuration')
        g = (lambda k: L.get(k))
        k = E.fresh(I_, 'k')
        E.assume(inrange(k, c))
        o = g(k)
        cim_post(E, o, lambda x: env['T'](k, z(x)), lambda x, y: env['M'](k, z(x), z(y)), n, 'configuration k: ')
        Ma, Ta = I.attr(o, 'state_transition_matrix'), I.attr(o, 'state_residence_times')
        E.oblige(all_in(lambda x: all_in(lambda y: eq(Ma.get(x, y), env['M'](k, z(x), z(y))), n), n), 'the counts of configuration k are kept')
        E.oblige(all_in(lambda x: eq(Ta.get(x), env['T'](k, z(x))), n), 'the times of configuration k are kept')
    ctx.verify('SetOfCims.build_cims', setup3, post3)
