"""C09: representation invariant of Cache: two lists of equal length; the abstract state is the sequence of (set, object) insertions."""
NOTE = 'contracts/c09.py: representation invariant of the cache, every operation, any history (by induction over operations).'

from pyver.harness import *


def cache(E, I):
    n = E.fresh(I_, 'n')
    E.assume(n >= 0)
    ks = Function(E.name('key'), I_, SetL)
    vs = Function(E.name('val'), I_, Lbl)
    keys = PList.sym(E, n, lambda i: PSet.arr(E, ks(z(i))))
    vals = PList.sym(E, n, lambda i: vs(z(i)))
    o = inst(E, I, 'Cache', _list_of_sets_of_parents=keys, _actual_cache=vals)
    return o, dict(o=o, n=n, ks=ks, vs=vs)


def state(o):
    a, b = o.d['_list_of_sets_of_parents'], o.d['_actual_cache']
    return a, b


def same_state(E, o, n, ks, vs, tag):
    a, b = state(o)
    E.oblige(band(eq(a.n, n), eq(b.n, n)), tag + ': both lists have one entry per insertion')
    E.oblige(all_in(lambda i: eq(a.get(i).array(), ks(i)), n), tag + ': parent sets in insertion order')
    E.oblige(all_in(lambda i: eq(b.get(i), vs(i)), n), tag + ': objects in insertion order')


def run(ctx):
    def s_init(E, I):
        o = inst(E, I, 'Cache')
        return o, [], {}, dict(o=o)

    def p_init(E, I, env, out):
        a, b = state(env['o'])
        E.oblige(band(eq(a.n, 0), eq(b.n, 0)), 'a new cache is empty')
    ctx.verify('Cache.__init__', s_init, p_init)

    def s_put(E, I):
        o, env = cache(E, I)
        S = E.fresh(SetL, 'S')
        v = E.fresh(Lbl, 'v')
        env.update(S=S, v=v)
        return o, [PSet.arr(E, S), v], {}, env

    def p_put(E, I, env, out):
        n, ks, vs = env['n'], env['ks'], env['vs']
        same_state(E, env['o'], n + 1, lambda i: ite(eq(i, n), env['S'], ks(z(i))), lambda i: ite(eq(i, n), env['v'], vs(z(i))), 'put')
    ctx.verify('Cache.put', s_put, p_put)

    def s_clear(E, I):
        o, env = cache(E, I)
        return o, [], {}, env
    ctx.verify('Cache.clear', s_clear, lambda E, I, env, out: p_init(E, I, env, out))

    def s_find(E, I):
        o, env = cache(E, I)
        S = E.fresh(SetL, 'S')
        env['S'] = S
        return o, [PSet.arr(E, S)], {}, env

    def p_find(E, I, env, out):
        n, ks, vs, S = env['n'], env['ks'], env['vs'], env['S']
        same_state(E, env['o'], n, lambda i: ks(z(i)), lambda i: vs(z(i)), 'find')
        if out is None:
            E.oblige(all_in(lambda i: ks(i) != S, n), 'nothing is returned only when no equal set was inserted')
        else:
            E.oblige(Exists([q0 := E.fresh(I_, 'q')], And(0 <= q0, q0 < n, ks(q0) == S, eq(out, vs(q0)), all_in(lambda i: ks(i) != S, q0))), 'the object inserted first for an equal set is returned')
    ctx.verify('Cache.find', s_find, p_find)
