"""C07: the structure of a sample path names the columns of its trajectories, or building it raises."""
NOTE = ('contracts/c07.py: SamplePath, build_trajectories and build_structure are executed for any importer with any number of variables, declared names in any order or number, any cardinalities, '
        'with and without declared edges; the accessors get_node_id, get_node_indx and get_states_number are executed on the structure that results. Row labels of the frames are never used by the '
        'functions modelled (iloc, to_list, to_numpy, to_records(index=False)); frames have no missing values.')

from .common import *
from pyver.libpd import frame
from pyver.values import PList


def run(ctx):
    def setup(E, I, edges, same, extra):
        n, nd = E.fresh(I_, 'n'), E.fresh(I_, 'nd')
        E.assume(n >= 1)
        E.assume(nd >= 1)
        sorter, vf, vg = label_list(E, 'var', n)
        t0 = E.fresh(Lbl, 'time_label')
        if same:
            E.assume(nd == n)
            df, dg = vf, vg
        else:
            _, df, dg = label_list(E, 'declared', nd)
            j = E.fresh(I_, 'differ')
            E.assume(Or(nd != n, And(inrange(j, n), df(j) != vf(j))))
        card = Function(E.name('card'), I_, I_)
        # the frame of the variables: names, cardinalities, possibly more
        names = [E.fresh(Lbl, k) for k in ['name', 'value', 'note'][:3 if extra else 2]]
        E.assume(z3.Distinct(*names))
        v = frame(E, nd, PList.of(E, names), lambda l, r: df(z(r)) if l.eq(names[0]) else card(z(r)) if l.eq(names[1]) else Lbl_other(z(r)))
        Lbl_other = Function(E.name('other'), I_, Lbl)
        v.d['colinv'] = {str(names[0]): dg}
        # the declared edges
        ne = E.fresh(I_, 'ne')
        E.assume(ne >= 0)
        ef, et = Function(E.name('from'), I_, Lbl), Function(E.name('to'), I_, Lbl)
        cols = [E.fresh(Lbl, 'c_from'), E.fresh(Lbl, 'c_to')]
        s = frame(E, ne, PList.of(E, cols), lambda l, r: ef(z(r)) if l.eq(cols[0]) else et(z(r))) if edges else None
        # the data: time, states before, states after
        m = E.fresh(I_, 'rows')
        E.assume(m >= 1)
        col = Function(E.name('col'), I_, Lbl)
        E.assume(col(0) == t0)
        E.assume(forall(lambda k: imp(inrange(k, n), col(k + 1) == vf(k)), I_, pat=lambda k: vf(k)))
        tm, st = Function(E.name('time'), I_, R), Function(E.name('state'), Lbl, I_, I_)
        cell = lambda l, r: If(lab(l) == t0, tm(z(r)), z3.ToReal(st(lab(l), z(r))))
        E.assume(forall(lambda k: imp(And(1 <= k, k <= 2 * n), col(k) != t0), I_, pat=lambda k: col(k)))
        f = frame(E, m, PList.sym(E, 2 * n + 1, lambda k: col(z(k))), cell)
        imp_ = inst(E, I, 'SampleImporter', _sorter=sorter, _df_variables=v, _df_structure=s, _concatenated_samples=f, _df_samples_list=POISON, _raw_data=POISON)
        return None, [], {}, dict(imp=imp_, n=n, nd=nd, vf=vf, df=df, card=card, ne=ne, ef=ef, et=et, m=m, tm=tm, st=st, edges=edges)

    def body(E, I, env, first):
        sp = I.instantiate(I.repo.classes['SamplePath'], [env['imp']], {})
        run = lambda m: I.call_function(ctx.ref('SamplePath.' + m, sp), [], {})
        run('build_structure' if first else 'build_trajectories')
        run('build_trajectories' if first else 'build_structure')
        return sp

    def post(E, I, env, sp):
        n, nd, vf, df, card, m, tm, st = [env[k] for k in 'n nd vf df card m tm st'.split()]
        E.oblige(band(eq(nd, n), all_in(lambda k: eq(df(z(k)), vf(z(k))), n)), 'a structure is built only if the declared variables are the columns, in their order')
        S, T = I.attr(sp, 'structure'), I.attr(sp, 'trajectories')
        L, X, V = I.attr(S, 'nodes_labels'), I.attr(S, 'nodes_indexes'), I.attr(S, 'nodes_values')
        E.oblige(band(eq(L.n, n), eq(X.shape[0], n), eq(V.shape[0], n), eq(I.attr(S, 'total_variables_number'), n), eq(I.attr(sp, 'total_variables_count'), n)), 'one label, index and cardinality per column')
        tr, cp, ti = I.attr(T, 'trajectory'), I.attr(T, 'complete_trajectory'), I.attr(T, 'times')
        E.oblige(band(eq(tr.shape[0], m), eq(tr.shape[1], n)), 'one column per variable')
        E.oblige(band(eq(cp.shape[0], m), eq(cp.shape[1], 2 * n), eq(ti.shape[0], m)), 'the complete trajectory has the states before and after, and a time per row')
        i, r = E.fresh(I_, 'i'), E.fresh(I_, 'r')
        E.assume(And(inrange(i, n), inrange(r, m)))
        E.oblige(eq(L.get(i), vf(i)), 'label of a column')
        E.oblige(eq(X.get(i), i), 'index of a column')
        E.oblige(eq(V.get(i), card(i)), 'cardinality of a column')
        E.oblige(eq(tr.get(r, i), st(vf(i), r)), 'the column of the trajectory with that index holds the states of that variable')
        E.oblige(eq(cp.get(r, i), st(vf(i), r)), 'and so does the column of the complete trajectory')
        E.oblige(eq(ti.get(r), tm(r)), 'the time of a row')
        call = lambda q, *a: I.call_function(ctx.ref('Structure.' + q, S), list(a), {})
        E.oblige(eq(call('get_node_id', i), vf(i)), 'get_node_id')
        E.oblige(eq(call('get_node_indx', vf(i)), i), 'get_node_indx')
        E.oblige(eq(call('get_positional_node_indx', vf(i)), i), 'get_positional_node_indx')
        E.oblige(eq(call('get_states_number', vf(i)), card(i)), 'get_states_number')
        ed = I.attr(S, 'edges')
        if env['edges']:
            ne, ef, et = env['ne'], env['ef'], env['et']
            E.oblige(eq(ed.n, ne), 'as many edges as declared')
            if not (isinstance(ed.n, int) and ed.n == 0):
                k = E.fresh(I_, 'k')
                E.assume(inrange(k, ne))
                e = ed.get(k)
                E.oblige(band(eq(e[0], ef(k)), eq(e[1], et(k))), 'the edges are the declared ones')
        else:
            E.oblige(eq(ed.n, 0), 'no edges without declared edges')

    def raises(E, I, env, name):
        n, nd, vf, df = [env[k] for k in 'n nd vf df'.split()]
        return And(name == 'RuntimeError', z3.Not(zb(band(eq(nd, n), all_in(lambda k: eq(df(z(k)), vf(z(k))), n)))))
    for edges in (True, False):
        for same in (True, False):
            for first in (True, False):
                ctx.verify('SamplePath.build_structure', lambda E, I, edges=edges, same=same: setup(E, I, edges, same, not edges), post, body=lambda E, I, env, first=first: body(E, I, env, first), raises=raises,
                           label='SamplePath.build_%s (%s order, %s)' % ('structure, build_trajectories' if first else 'trajectories, build_structure', 'the same' if same else 'another', 'with edges' if edges else 'no edges'))
