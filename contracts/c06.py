"""C06: imported data: trajectory after trajectory, one row per pair of consecutive rows."""
NOTE = ('contracts/c06.py: the row computation of one trajectory of any length (one row included) and any labels, its concatenation over any list of trajectories with the time column first and the same columns '
        '(row bookkeeping of pandas.concat as axiomatised, row labels never used), and the split into times and states; the frames passed in are unchanged. Frames have no missing values; states fit 32 bits; floats are reals. '
        'Reading the JSON file itself (json, DataFrame constructors) is outside the contracts and covered by the bounded runtime check.')

from .common import *
from pyver.libpd import frame, pos_of, FN_concat
from pyver.lib import list_contains
from pyver.values import PList


def setup_frames(E, I, many=True):
    """the time column, then the variables; labels distinct; any number of trajectories of any positive length"""
    n = E.fresh(I_, 'n')
    E.assume(n >= 1)
    sorter, vf, vg = label_list(E, 'var', n)
    t0 = E.fresh(Lbl, 'time_label')
    E.assume(forall(lambda k: imp(inrange(k, n), vf(k) != t0), I_, pat=lambda k: vf(k)))
    col = Function(E.name('col'), I_, Lbl)        # column 0 is the time
    E.assume(col(0) == t0)
    E.assume(forall(lambda k: imp(inrange(k, n), col(k + 1) == vf(k)), I_, pat=lambda k: vf(k)))
    E.assume(forall(lambda j: imp(And(1 <= j, j <= n), col(j) == vf(j - 1)), I_, pat=lambda j: col(j)))
    cf = lambda j: col(z(j))
    cg = lambda l: If(lab(l) == t0, IntVal(0), vg(lab(l)) + 1)
    cell = Function(E.name('cell'), I_, Lbl, I_, R)
    N = E.fresh(I_, 'N')
    rows = Function(E.name('rows'), I_, I_)
    E.assume(N >= 1)
    E.assume(forall(lambda i: imp(inrange(i, N), rows(i) >= 1), I_, pat=lambda i: rows(i)))
    # the states are integers
    st = Function(E.name('state'), I_, I_, I_, I_)      # trajectory, variable, row
    tm = Function(E.name('time'), I_, I_, R)
    E.assume(forall(lambda i, r: cell(i, t0, r) == tm(i, r), I_, I_, pat=lambda i, r: cell(i, t0, r)))
    E.assume(forall(lambda i, k, r: imp(inrange(k, n), cell(i, vf(k), r) == z3.ToReal(st(i, k, r))), I_, I_, I_, pat=lambda i, k, r: cell(i, vf(k), r)))
    E.assume(forall(lambda i, l, r: Not(isnan(cell(i, l, r))), I_, Lbl, I_, pat=lambda i, l, r: cell(i, l, r)))
    mk = lambda i: frame(E, rows(z(i)), PList.sym(E, n + 1, lambda k: cf(z(k)), inv=lambda l: cg(lab(l))), lambda l, r: cell(z(i), lab(l), z(r)))
    return dict(n=n, vf=vf, vg=vg, t0=t0, cf=cf, cg=cg, sorter=sorter, cell=cell, N=N, rows=rows, st=st, tm=tm, mk=mk)


def one_trajectory(I, env):
    """contract of compute_row_delta_sigle_samples_frame, proved below, as used by its caller"""
    def contract(E, self=None, sample_frame=None, columns_header=None, shifted_cols_header=None, **_):
        f, hd, sh = sample_frame, columns_header, shifted_cols_header
        n, cols, c = f.d['n'], f.d['cols'], f.d['cell']
        env['sh'] = sh
        E.oblige(1 <= zi(n), 'a trajectory has at least one row')
        E.oblige(band(eq(cols.n, add(hd.n, 1)), eq(sh.n, hd.n)), 'the frame has the time and the variables, each with a new name')
        E.oblige(all_in(lambda k: eq(hd.get(k), cols.get(z(k) + 1)), hd.n), 'the variables follow the time')
        E.oblige(all_in(lambda k: all_in(lambda j: bnot(eq(sh.get(k), cols.get(j))), cols.n), sh.n), 'the new names differ from the old ones')
        og = cols.getter()
        t0 = og(IntVal(0))
        hg = hd.getter()

        def cell(l, r):
            l = lab(l)
            return If(zb(list_contains(E, sh, l)), zr(c(hg(pos_of(I, sh, l)), add(r, 1))), If(l == lab(t0), zr(sub(c(t0, add(r, 1)), c(t0, r))), zr(c(l, r))))
        return frame(E, sub(n, 1), FN_concat(I, cols, sh), cell)
    return contract


def run(ctx):
    def unchanged(E, env, f, i, tag):
        n, cf, cell, rows = [env[k] for k in 'n cf cell rows'.split()]
        E.oblige(band(eq(f.d['n'], rows(i)), eq(f.d['cols'].n, n + 1), all_in(lambda k: eq(f.d['cols'].get(k), cf(z(k))), n + 1)), tag + 'the frame passed in keeps its rows and columns')
        E.oblige(all_in(lambda r: all_in(lambda k: eq(f.d['cell'](cf(z(k)), z(r)), cell(i, cf(z(k)), z(r))), n + 1), rows(i)), tag + 'the frame passed in keeps its values')

    def s_one(E, I):
        env = setup_frames(E, I)
        i = env['i'] = E.fresh(I_, 'i')
        E.assume(inrange(i, env['N']))
        env['f'] = env['mk'](i)
        sh, sf, sg = label_list(E, 'shifted', env['n'])
        E.assume(forall(lambda k, j: imp(And(0 <= k, k < env['n'], 0 <= j, j < env['n']), sf(k) != env['vf'](j)), I_, I_, pat=lambda k, j: z3.MultiPattern(sf(k), env['vf'](j))))
        E.assume(forall(lambda k: imp(inrange(k, env['n']), sf(k) != env['t0']), I_, pat=lambda k: sf(k)))
        env['sf'] = sf
        return inst(E, I, 'SampleImporter', _sorter=env['sorter']), [env['f'], env['sorter'], sh], {}, env

    def p_one(E, I, env, out):
        n, cf, vf, st, tm, i, sf, rows = [env[k] for k in 'n cf vf st tm i sf rows'.split()]
        E.oblige(eq(out.d['n'], rows(i) - 1), 'one row per pair of consecutive rows')
        c = out.d['cell']
        m = rows(i) - 1
        E.oblige(all_in(lambda r: eq(c(cf(0), r), tm(i, z(r) + 1) - tm(i, z(r))), m), 'the elapsed time')
        E.oblige(all_in(lambda r: all_in(lambda k: eq(c(vf(z(k)), r), zr(st(i, z(k), z(r)))), n), m), 'the states before')
        E.oblige(all_in(lambda r: all_in(lambda k: eq(c(sf(z(k)), r), zr(st(i, z(k), z(r) + 1))), n), m), 'the states after')
        unchanged(E, env, env['f'], i, '')
    ctx.verify('SampleImporter.compute_row_delta_sigle_samples_frame', s_one, p_one)

    def s_all(E, I):
        env = setup_frames(E, I)
        frames = env['frames'] = PList.sym(E, env['N'], lambda i: env['mk'](i))
        env['imp'] = inst(E, I, 'SampleImporter', _sorter=env['sorter'], _concatenated_samples=PList.of(E, []), _df_samples_list=frames)
        E.contracts = {k + '.compute_row_delta_sigle_samples_frame': one_trajectory(I, env) for k in ('AbstractImporter', 'SampleImporter')}
        return env['imp'], [frames], {}, env

    def result(E, I, env, T, X, tag, fr=None):
        """times T and states X of the concatenated data"""
        n, st, tm, N, rows = [env[k] for k in 'n st tm N rows'.split()]
        off = lambda i: mk_sum(lambda q: rows(q) - 1, z(i))
        E.oblige(eq(X.shape[0], off(N)), tag + 'one row per pair of consecutive rows of a trajectory')
        E.oblige(band(eq(T.shape[0], X.shape[0]), eq(X.shape[1], 2 * n)), tag + 'one time, all the states before and after')
        i, r, k = E.fresh(I_, 'i'), E.fresh(I_, 'r'), E.fresh(I_, 'k')
        E.assume(And(inrange(i, N), inrange(r, rows(i) - 1), inrange(k, n)))
        q = off(i) + r
        for cn, crows, K, W in E.concats:
            # the row bookkeeping of the concatenation, at row r of trajectory i
            co = mk_sum(crows, i)
            E.oblige(eq(crows(i), rows(i) - 1), tag + 'a trajectory contributes one row per pair of consecutive rows')
            E.oblige(all_in(lambda k_: eq(crows(z(k_)), rows(z(k_)) - 1), N), tag + 'every trajectory contributes one row per pair of consecutive rows')
            E.oblige(eq(co, off(i)), tag + 'the rows of a trajectory follow those of the earlier ones')
            at = z(co) + r
            E.assume(imp(And(zb(inrange(i, cn)), zb(inrange(r, crows(i)))), And(K(at) == i, W(at) == r)))
            E.oblige(And(K(q) == i, W(q) == r), tag + 'row r of trajectory i is where it should be')
        if fr is not None:
            cf, vf = env['cf'], env['vf']
            cols, c = fr.d['cols'], fr.d['cell']
            E.oblige(eq(cols.get(z(0)), cf(0)), tag + 'the first column is the time')
            E.oblige(eq(cols.get(k + 1), vf(k)), tag + 'then the variables in order')
            if 'sh' in env:
                E.oblige(bnot(list_contains(E, env['sh'], cf(0))), tag + 'the time is no new name')
                E.oblige(bnot(list_contains(E, env['sh'], vf(k))), tag + 'a variable is no new name')
            E.oblige(eq(c(cf(0), q), tm(i, r + 1) - tm(i, r)), tag + 'elapsed time of the row')
            E.oblige(eq(c(vf(k), q), zr(st(i, k, r))), tag + 'state before of the row')
            E.oblige(eq(c(cols.get(k + 1), q), zr(st(i, k, r))), tag + 'state before of the row, in its column')
        E.oblige(eq(T.get(q), tm(i, r + 1) - tm(i, r)), tag + 'the elapsed time, trajectory after trajectory')
        E.oblige(eq(X.get(q, k), st(i, k, r)), tag + 'the states before')
        E.oblige(eq(X.get(q, k + n), st(i, k, r + 1)), tag + 'the states after')

    def p_all(E, I, env, out):
        so = I.attr(env['imp'], '_sorter')
        E.oblige(band(eq(so.n, env['n']), all_in(lambda k: eq(so.get(k), env['vf'](z(k))), env['n'])), 'the variables are those it was given')
        fr = I.attr(env['imp'], '_concatenated_samples')
        cols = I.call_function(ctx.ref('SampleImporter.build_list_of_samples_array', env['imp']), [fr], {})
        T, X = cols.get(0), cols.get(1)
        result(E, I, env, T, X, '', fr)
        i = E.fresh(I_, 'i')
        E.assume(inrange(i, env['N']))
        unchanged(E, env, env['frames'].get(i), i, '')
    ctx.verify('SampleImporter.compute_row_delta_in_all_samples_frames', s_all, p_all)

    # the importers: the list of variables comes from the first trajectory
    def all_trajectories(env):
        """contract of compute_row_delta_in_all_samples_frames, proved above, as used by the importers"""
        n, vf, cf, cell, st, tm, N, rows = [env[k] for k in 'n vf cf cell st tm N rows'.split()]

        def contract(E, self=None, df_samples_list=None, **_):
            so = self.d['_sorter']
            E.oblige(band(eq(so.n, n), all_in(lambda k: eq(so.get(k), vf(z(k))), n)), 'the variables are known and in the order of the columns')
            i = E.fresh(I_, 'i')
            fl = df_samples_list
            E.oblige(eq(fl.n, N), 'all the trajectories are passed')
            E.assume(inrange(i, N))
            unchanged(E, env, fl.get(i), i, 'passed: ')
            off = lambda i: mk_sum(lambda q: rows(q) - 1, z(i))
            col = Function(E.name('newcol'), I_, Lbl)
            G = Function(E.name('newcell'), Lbl, I_, R)
            E.assume(off(N) >= 0)
            E.assume(forall(lambda k, q: imp(And(1 <= k, k <= 2 * n), z3.IsInt(G(col(k), q))), I_, I_, pat=lambda k, q: G(col(k), q)))
            E.assume(forall(lambda k, q: Not(isnan(G(col(k), q))), I_, I_, pat=lambda k, q: G(col(k), q)))

            def facts(i, r, k):
                q = off(i) + r
                return imp(And(inrange(i, N), inrange(r, rows(i) - 1), inrange(k, n)),
                           And(0 <= q, q < zi(off(N)), G(col(0), q) == tm(i, r + 1) - tm(i, r), G(col(k + 1), q) == zr(st(i, k, r)), G(col(k + n + 1), q) == zr(st(i, k, r + 1))))
            env['facts'] = facts
            self.d['_concatenated_samples'] = frame(E, off(N), PList.sym(E, 2 * n + 1, lambda k: col(z(k))), lambda l, r: G(lab(l), z(r)))
        return contract

    def s_imp(E, I, given):
        env = setup_frames(E, I)
        frames = env['frames'] = PList.sym(E, env['N'], lambda i: env['mk'](i))
        env['imp'] = inst(E, I, 'SampleImporter', _sorter=None, _concatenated_samples=PList.of(E, []), _df_samples_list=frames)
        E.contracts = {k + '.compute_row_delta_in_all_samples_frames': all_trajectories(env) for k in ('AbstractImporter', 'SampleImporter')}
        return env['imp'], [], dict(header_column=env['sorter']) if given else {}, env

    def p_imp(E, I, env, out):
        imp_, n, st, tm, N, rows, vf = [env[k] for k in 'imp n st tm N rows vf'.split()]
        so = I.attr(imp_, '_sorter')
        E.oblige(band(eq(so.n, n), all_in(lambda k: eq(so.get(k), vf(z(k))), n)), 'the variables are the columns after the time, in order')
        fr = I.attr(imp_, '_concatenated_samples')
        cols = I.call_function(ctx.ref(imp_.cls.name + '.build_list_of_samples_array', imp_), [fr], {})
        T, X = cols.get(0), cols.get(1)
        off = lambda i: mk_sum(lambda q: rows(q) - 1, z(i))
        E.oblige(eq(X.shape[0], off(N)), 'one row per pair of consecutive rows of a trajectory')
        E.oblige(band(eq(T.shape[0], X.shape[0]), eq(X.shape[1], 2 * n)), 'one time, all the states before and after')
        i, r, k = E.fresh(I_, 'i'), E.fresh(I_, 'r'), E.fresh(I_, 'k')
        E.assume(And(inrange(i, N), inrange(r, rows(i) - 1), inrange(k, n)))
        E.oblige('facts' in env, 'the rows of all trajectories are computed')
        if 'facts' in env:
            E.assume(env['facts'](i, r, k))
        q = off(i) + r
        E.oblige(eq(T.get(q), tm(i, r + 1) - tm(i, r)), 'the elapsed time, trajectory after trajectory')
        E.oblige(eq(X.get(q, k), st(i, k, r)), 'the states before')
        E.oblige(eq(X.get(q, k + n), st(i, k, r + 1)), 'the states after')
    for given in (False, True):
        ctx.verify('SampleImporter.import_data', lambda E, I, given=given: s_imp(E, I, given), p_imp, label='SampleImporter.import_data (header %s)' % ('given' if given else 'from the data'))

    def s_json(E, I):
        env = setup_frames(E, I)
        frames = env['frames'] = PList.sym(E, env['N'], lambda i: env['mk'](i))
        env['imp'] = inst(E, I, 'JsonImporter', _sorter=None, _concatenated_samples=PList.of(E, []), _df_samples_list=None, _raw_data=Opaque('anything'), _cims_label=None,
                          _time_key=env['t0'], _array_indx=None, _df_structure=None, _df_variables=None)
        E.contracts = {k + '.compute_row_delta_in_all_samples_frames': all_trajectories(env) for k in ('AbstractImporter', 'JsonImporter')}
        E.contracts.update({'JsonImporter.import_trajectories': lambda E, self=None, **b: frames, 'JsonImporter.import_structure': lambda E, self=None, **b: Opaque('anything'),
                            'JsonImporter.import_variables': lambda E, self=None, **b: Opaque('anything')})
        return env['imp'], [E.fresh(I_, 'indx')], {}, env
    ctx.verify('JsonImporter.import_data', s_json, p_imp)
