"""pandas frames: a row count, a list of column labels and cells addressed by (label, row)."""
import z3
from .terms import *
from .engine import *
from .values import *
from .lib import fn, prop, iterate, quick, FN, GETITEM, SETITEM, kind_of, LEN, eqdim, norm_index, slice_bounds, ITER, ATTR, SETATTR, is_num, list_contains, clampidx
from .interp import conc_b, NOASSIGN

IS = z3.IntSort()


class PFrame(HObj):
    """n rows; cols: PList of labels; cell(label, row) -> value; dtype by label fn (label)->'i'|'r'|'o'"""
    kind = 'dframe'

    def join(self, E, pcs, ds):
        raise Unsupported('join of frames')

    def substituted(self, E, pairs):
        c = self.d['cell']
        o = PFrame(E, n=subst_val(E, self.d['n'], pairs), cols=subst_val(E, self.d['cols'], pairs), cell=lambda l, r: subst_val(E, c(l, r), pairs), log=())
        return frozen(o)

    def merged(self, E, c, o):
        raise Unsupported('merge of frames')


def frame(E, n, cols, cell):
    return PFrame(E, n=conc(n), cols=cols, cell=cell, log=())


def copy(I, f):
    c = f.d['cols']
    return frame(I.E, f.d['n'], FN['copy.deepcopy'](I, c), f.d['cell'])


def series(n, fn_, name=None):
    return Opaque('series', n=n, fn=fn_)


@fn('dframe.copy')
def df_copy(I, f, deep=True):
    return copy(I, f)


@prop('dframe', 'columns')
def df_columns(I, f):
    return Opaque('colindex', f=f)


ATTR[('colindex', 'values')] = lambda I, v: v
ITER['colindex'] = lambda I, v: iterate(I, v.f.d['cols'])
LEN['colindex'] = lambda I, v: v.f.d['cols'].n
FN['colindex.tolist'] = FN['colindex.to_list'] = lambda I, v: FN['builtins.list'](I, v)


def _colget(I, v, ix):
    cols = v.f.d['cols']
    if isinstance(ix, Slice):
        from .lib import list_slice
        return list_slice(I, cols, ix)
    i = norm_index(I.E, ix, cols.n)
    return cols.get(z(i) if not isinstance(i, int) else i)


GETITEM['colindex'] = _colget


def _setcols(I, f, v):
    """frame.columns = labels: the same cells under new names, position by position"""
    E = I.E
    it = iterate(I, v)
    old = f.d['cols']
    if not eqdim(E, it.n, old.n):
        E.oblige(eq(it.n, old.n), 'as many labels as columns')
    new = PList.sym(E, it.n, it.fn, inv=getattr(it, 'inv', None)) if not isinstance(it.n, int) else PList.of(E, [it.fn(IntVal(k)) for k in range(it.n)])
    cell, og = f.d['cell'], old.getter()
    f.set(cols=new, cell=lambda l, r: cell(og(pos_of(I, new, l)), r), log=f.d['log'] + (('cols',),))


SETATTR[('dframe', 'columns')] = _setcols


def pos_of(I, l, x):
    """position of a label in a duplicate-free label list"""
    if l.items is not None:
        for k, y in enumerate(l.items):
            if veq(y, x) is True:
                return k
        v = IntVal(-1)
        for k in range(len(l.items) - 1, -1, -1):
            v = If(zb(veq(l.items[k], x)), IntVal(k), v)
        return v
    if l.d['inv'] is None:
        raise Unsupported('column labels without positions')
    return l.d['inv'](lab(x))


@prop('dframe', 'empty')
def df_empty(I, f):
    return conc_b(bor(eq(f.d['n'], 0), eq(f.d['cols'].n, 0)))


@prop('dframe', 'shape')
def df_shape(I, f):
    return (f.d['n'], f.d['cols'].n)


LEN['dframe'] = lambda I, f: f.d['n']


@prop('dframe', 'iloc')
def df_iloc(I, f):
    return Opaque('iloc', f=f)


@prop('dframe', 'loc')
def df_loc(I, f):
    return Opaque('loc', f=f)


def _full(s):
    return isinstance(s, Slice) and s.lo is None and s.hi is None and s.step is None


def _iloc_get(I, v, ix):
    E = I.E
    f = v.f
    if isinstance(ix, Slice):
        lo, n = slice_bounds(E, ix, f.d['n'])
        cell = f.d['cell']
        return frame(E, n, f.d['cols'], lambda l, r: cell(l, add(r, lo)))
    if isinstance(ix, tuple) and len(ix) == 2:
        r, c = ix
        if _full(r) and not isinstance(c, Slice):
            c = norm_index(E, c, f.d['cols'].n)
            l = f.d['cols'].get(z(c) if not isinstance(c, int) else c)
            cell = f.d['cell']
            o = series(f.d['n'], lambda i: cell(l, i))
            o.inv = (f.d.get('colinv') or {}).get(str(l))      # position of a value, where the values differ
            return o
        if not isinstance(r, Slice) and not isinstance(c, Slice):
            r = norm_index(E, r, f.d['n'])
            c = norm_index(E, c, f.d['cols'].n)
            return f.d['cell'](f.d['cols'].get(z(c) if not isinstance(c, int) else c), r)
    raise Unsupported('iloc')


GETITEM['iloc'] = _iloc_get


def _iloc_set(I, v, ix, val):
    E = I.E
    f = v.f
    if isinstance(ix, tuple) and len(ix) == 2 and _full(ix[0]) and not isinstance(ix[1], Slice):
        c = norm_index(E, ix[1], f.d['cols'].n)
        l = f.d['cols'].get(z(c) if not isinstance(c, int) else c)
        return set_col(I, f, l, val)
    raise Unsupported('iloc assignment')


SETITEM['iloc'] = _iloc_set


def set_col(I, f, l, val):
    E = I.E
    if kind_of(val) == 'series':
        if not eqdim(E, val.n, f.d['n']):
            raise Unsupported('assignment of a series with another index')
        g = val.fn
    elif is_num(val):
        g = lambda i: val
    elif isinstance(val, PArr):
        rr = val.reader()
        if not eqdim(E, val.shape[0], f.d['n']):
            E.oblige(eq(val.shape[0], f.d['n']), 'column has the length of the frame')
        g = lambda i: rr((i,))
    else:
        raise Unsupported('column from a ' + kind_of(val))
    cell = f.d['cell']
    if not list_has(E, f.d['cols'], l):
        raise Unsupported('new column')

    def c2(x, r):
        e = veq(x, l)
        return g(r) if e is True else cell(x, r) if e is False else mv(E, e, g(r), cell(x, r))
    f.set(cell=c2, log=f.d['log'] + (('col', l),))


def mv(E, c, a, b):
    if isz(a) or isz(b) or is_num(a):
        if is_num(a) and is_num(b):
            return ite(c, zr(a), zr(b))
    return merge_val(E, c, a, b)


def list_has(E, l, x):
    m = list_contains(E, l, x)
    return m is True or (not isinstance(m, bool) and (quick(E, m) or E.entails(m)))


def _df_get(I, f, ix):
    E = I.E
    if kind_of(ix) == 'str':
        if not list_has(E, f.d['cols'], ix):
            m = list_contains(E, f.d['cols'], ix)
            if m is False or not E.branch(zb(m)):
                raise PyRaise('KeyError')
        cell = f.d['cell']
        return series(f.d['n'], lambda i: cell(ix, i))
    if isinstance(ix, PList):
        if ix.items is not None and len(ix.items) and all(kind_of(x) != 'str' for x in ix.items):
            raise Unsupported('frame subscript')
        g = ix.getter()
        cols = f.d['cols']
        E.oblige(all_in(lambda i: list_contains(E, cols, g(i)), ix.n), 'selected columns exist')
        c = FN['copy.deepcopy'](I, ix)
        return frame(E, f.d['n'], c, f.d['cell'])
    if isinstance(ix, Slice):
        return last_rows(I, f, ix)
    if kind_of(ix) == 'series':
        return filter_rows(I, f, ix.fn)
    raise Unsupported('frame subscript')


GETITEM['dframe'] = _df_get
SETITEM['dframe'] = lambda I, f, ix, v: set_col(I, f, ix, v)


def filter_rows(I, f, p):
    E = I.E
    n = zi(f.d['n'])
    l = Lambda_b(lambda k: zb(p(k)))
    c = Cnt(l, n)
    E.assume(And(c >= 0, Implies(n >= 0, c <= n)))
    cell = f.d['cell']
    return frame(E, c, f.d['cols'], lambda x, r: cell(x, Sel(l, n, zi(r))))


@fn('dframe.shift')
def df_shift(I, f, periods=1):
    cell, n = f.d['cell'], f.d['n']
    k = int(conc(periods))
    return frame(I.E, n, f.d['cols'], lambda l, r: shifted(lambda i: cell(l, i), n, k, r))


def shifted(g, n, k, r):
    """row r of the data shifted by k: data row r-k, missing outside"""
    s = sub(r, k)
    c = inrange(s, n)
    return ite(c, zr(g(s)), NAN)


@fn('series.shift')
def se_shift(I, s, periods=1):
    g, n, k = s.fn, s.n, int(conc(periods))
    return series(n, lambda r: shifted(g, n, k, r))


@fn('series.diff')
def se_diff(I, s, periods=1):
    g, n, k = s.fn, s.n, int(conc(periods))

    def d(r):
        p = sub(r, k)
        return ite(inrange(p, n), zr(sub(g(r), g(p))), NAN)
    return series(n, d)


@fn('dframe.fillna')
def df_fillna(I, f, v):
    cell = f.d['cell']
    I.E.assume(Not(isnan(zr(v))))
    return frame(I.E, f.d['n'], f.d['cols'], lambda l, r: If(isnan(zr(cell(l, r))), zr(v), zr(cell(l, r))))


@fn('series.fillna')
def se_fillna(I, s, v):
    g = s.fn
    I.E.assume(Not(isnan(zr(v))))
    return series(s.n, lambda r: If(isnan(zr(g(r))), zr(v), zr(g(r))))


@fn('dframe.astype')
def df_astype(I, f, t):
    from .libnp import typ_dt
    dt = typ_dt(t)
    cell = f.d['cell']
    E = I.E
    if dt == 'i':
        g = lambda l, r: zr(trunc(zr(cell(l, r))))
    elif dt == 'r':
        g = lambda l, r: zr(cell(l, r))
    else:
        raise Unsupported('astype')
    from .libnp import fits, narrow, WIDTHS, DIGITS
    if narrow(t) in WIDTHS or narrow(t) in DIGITS:
        q, x = bvar(IS, 'q'), bvar(Lbl, 'l')
        c = f.d['cols']
        E.oblige(ForAll([q, x], Implies(And(zb(inrange(q, f.d['n'])), zb(list_contains(E, c, x))), fits(t, cell(x, q)))), 'values fit the narrower type')
    if dt == 'i':
        # missing values cannot be converted
        q, x = bvar(IS, 'q'), bvar(Lbl, 'l')
        c = f.d['cols']
        E.oblige(ForAll([q, x], Implies(And(zb(inrange(q, f.d['n'])), zb(list_contains(E, c, x))), Not(isnan(zr(cell(x, q)))))), 'no missing value is converted to an integer')
    return frame(E, f.d['n'], f.d['cols'], g)


@fn('dframe.assign')
def df_assign(I, f, **kw):
    E = I.E
    src = kw.pop('**', None)
    if src is None or kw or kind_of(src) != 'dframe':
        raise Unsupported('assign')
    if not eqdim(E, src.d['n'], f.d['n']):
        raise Unsupported('assign of a frame with another index')
    c1, c2 = f.d['cols'], src.d['cols']
    cell1, cell2 = f.d['cell'], src.d['cell']
    # a clash would overwrite the column of that name
    E.oblige(all_in(lambda i: bnot(list_contains(E, c1, c2.get(i))), c2.n), 'assigned columns are new')
    cols = FN_concat(I, c1, c2)

    def cell(l, r):
        m = list_contains(E, c2, l)
        if isinstance(m, bool):
            return cell2(l, r) if m else cell1(l, r)
        return mv(E, m, cell2(l, r), cell1(l, r))
    return frame(E, f.d['n'], cols, cell)


def FN_concat(I, c1, c2):
    from .lib import binop
    r = binop(I, 'Add', c1, c2)
    if r.items is None and all(x.items is not None or x.d['inv'] is not None for x in (c1, c2)):
        n1 = c1.n
        E = I.E
        inv = lambda x: If(zb(list_contains(E, c1, x)), zi(pos_of(I, c1, x)), If(zb(list_contains(E, c2, x)), zi(n1) + zi(pos_of(I, c2, x)), IntVal(-1)))
        r.d['inv'] = inv
    return r


@fn('pandas.concat')
def pd_concat(I, l, **kw):
    """row-wise concatenation of frames with the same columns"""
    E = I.E
    if kw.get('axis') not in (None, 0) or set(kw) - {'axis', 'ignore_index'}:
        raise Unsupported('concat options')
    it = iterate(I, l)
    n, f = it.n, it.fn
    if isinstance(n, int):
        if n == 0:
            raise PyRaise('ValueError')
    else:
        E.oblige(n > 0, 'at least one frame to concatenate')
    f0 = f(IntVal(0))
    if kind_of(f0) != 'dframe':
        raise Unsupported('concat')
    cols = f0.d['cols']
    x = bvar(Lbl, 'l')
    if not isinstance(n, int) or n > 1:
        E.oblige(forall(lambda i: imp(inrange(i, n), ForAll([x], zb(list_contains(E, cols, x)) == zb(list_contains(E, f(i).d['cols'], x)))), IS), 'frames have the same columns')
    rows = lambda i: f(i).d['n']
    tot = mk_sum(rows, n)
    off = lambda i: mk_sum(rows, i)
    K = E.freshfn('seg', IS, IS)
    W = E.freshfn('row', IS, IS)
    q, k = bvar(IS, 'q'), bvar(IS, 'q')
    E.assume(ForAll([q], Implies(zb(inrange(q, tot)), And(zb(inrange(K(q), n)), zb(inrange(W(q), rows(K(q)))), off(K(q)) + W(q) == q)), patterns=[K(q)]))
    E.assume(ForAll([k, q], Implies(And(zb(inrange(k, n)), zb(inrange(q, rows(k)))), And(K(off(k) + q) == k, W(off(k) + q) == q, zb(inrange(off(k) + q, tot))))))
    E.concats.append((n, rows, K, W))
    r = frame(E, tot, cols, lambda l, i: f(K(zi(i))).d['cell'](l, W(zi(i))))
    return r


def to_numpy(I, f):
    E = I.E
    cols, cell = f.d['cols'].getter(), f.d['cell']
    probe = cell(cols(IntVal(0) if not isinstance(f.d['cols'].n, int) else 0), bvar(IS)) if not (isinstance(f.d['cols'].n, int) and f.d['cols'].n == 0) else RealVal(0)
    from .libnp import dt_of
    dt = dt_of(probe)
    return PArr.of(E, dt if dt != 'i' else 'r', (f.d['n'], f.d['cols'].n), lambda idx: cell(cols(idx[1]), idx[0]))


FN['dframe.to_numpy'] = lambda I, f, *a, **k: to_numpy(I, f)
ATTR[('dframe', 'values')] = lambda I, f: to_numpy(I, f)


def series_arr(I, s):
    from .libnp import dt_of
    g = s.fn
    return PArr.of(I.E, dt_of(g(bvar(IS))), (s.n,), lambda idx: g(idx[0]))


FN['series.to_numpy'] = lambda I, s: series_arr(I, s)
ATTR[('series', 'values')] = lambda I, s: series_arr(I, s)


@fn('series.to_list', 'series.tolist')
def se_list(I, s):
    return PList.sym(I.E, s.n, s.fn, inv=getattr(s, 'inv', None)) if not isinstance(conc(s.n), int) else PList.of(I.E, [s.fn(IntVal(k)) for k in range(s.n)])


ITER['series'] = lambda I, s: PIter(s.n, s.fn)
LEN['series'] = lambda I, s: s.n


def compare(I, op, a, b):
    if kind_of(a) != 'series':
        a, b = b, a
    if op not in ('Eq', 'NotEq') or kind_of(b) in ('series', 'dframe'):
        raise Unsupported('series comparison')
    g = a.fn
    return series(a.n, (lambda i: veq(g(i), b)) if op == 'Eq' else (lambda i: bnot(veq(g(i), b))))


@fn('dframe.where')
def df_where(I, f, s):
    if kind_of(s) != 'series':
        raise Unsupported('where')
    return Opaque('masked_frame', f=f, p=s.fn)


@fn('masked_frame.dropna')
def mf_dropna(I, v, **kw):
    """where(mask).dropna(): the rows of the mask (the frame itself has no missing value)"""
    return filter_rows(I, v.f, v.p)


ATTR[('masked_frame', 'loc')] = lambda I, v: (_ for _ in ()).throw(Unsupported('loc'))


@fn('dframe.to_records')
def df_records(I, f, index=True):
    if index is not False:
        raise Unsupported('to_records with index')
    cols = f.d['cols']
    if not isinstance(cols.n, int):
        raise Unsupported('records of a symbolic number of columns')
    cell, labels = f.d['cell'], [cols.get(k) for k in range(cols.n)]
    return PIter(f.d['n'], lambda i: tuple(cell(l, i) for l in labels))


FN['dframe.head'] = lambda I, f, n=5: _iloc_get(I, Opaque('iloc', f=f), Slice(None, n, None))


# ------------------------------------------------------------------------- frames that are built row by row

def same_label(E, x, l):
    e = veq(x, l)
    if isinstance(e, bool):
        return e
    return False if quick(E, Not(zb(e))) or E.entails(Not(zb(e))) else e


def col_is(I, f, l):
    """KeyError unless l is a column"""
    if not list_has(I.E, f.d['cols'], l):
        m = zb(list_contains(I.E, f.d['cols'], l))
        I.E.oblige(m, 'the column exists')


def obj_frame(E, n, cols, cell):
    """one block of objects: a row taken from it is a view"""
    f = frame(E, n, cols, cell)
    f.d['obj'] = True
    return f


@fn('pandas.DataFrame')
def pd_frame(I, data=None, columns=None, dtype=None, index=None, **kw):
    E = I.E
    if kw or index is not None or columns is None:
        raise Unsupported('DataFrame')
    if isinstance(columns, Opaque) and columns.kind == 'colindex':
        cols = columns.f.d['cols']
    elif isinstance(columns, PList):
        cols = columns
    else:
        raise Unsupported('column labels')
    if cols.items is None and cols.d['inv'] is None and cols.d.get('parts') and cols.d['parts'][1] is cols.d['fn']:
        cols = PList.sym(E, cols.n, cols.getter(), inv=cols.d['parts'][0])
    obj = isinstance(dtype, Typ) and dtype.name in ('object', 'builtins.object')
    if isinstance(data, PArr) and data.ndim == 2:
        src = data.d.get('srcframe')
        if src is None or src[2] is not data.d['fn'] or src[0] is not cols:
            raise Unsupported('frame of an array')
        cell, obj = src[1], src[3]
        return (obj_frame if obj else frame)(E, data.shape[0], cols, cell)
    if isinstance(data, PList) and data.items is not None and all(isinstance(x, PList) for x in data.items) and len(data.items) == 1:
        row = data.items[0]
        if not eqdim(E, row.n, cols.n):
            E.oblige(eq(row.n, cols.n), 'as many values as columns')
        g = row.getter()
        return (obj_frame if obj else frame)(E, 1, cols, lambda l, r: g(pos_of(I, cols, l)))
    raise Unsupported('DataFrame')


def values_of(I, f):
    """frame.values: remembers the frame, so that a frame of the same columns made of it has the same cells"""
    E = I.E
    cols, cell = f.d['cols'].getter(), f.d['cell']
    a = PArr.of(E, 'o', (f.d['n'], f.d['cols'].n), lambda idx: cell(cols(idx[1]), idx[0]))
    a.d['srcframe'] = (f.d['cols'], cell, a.d['fn'], True)
    return a


_values0 = ATTR[('dframe', 'values')]
ATTR[('dframe', 'values')] = lambda I, f: values_of(I, f) if f.d.get('obj') else _values0(I, f)
FN['dframe.to_numpy'] = lambda I, f, *a, **k: values_of(I, f) if f.d.get('obj') else to_numpy(I, f)


def last_rows(I, f, ix):
    g = _iloc_get(I, Opaque('iloc', f=f), ix)
    if f.d.get('obj'):
        g.d['obj'] = True
    return g


@fn('dframe.append')
def df_append(I, f, g, ignore_index=False, **kw):
    E = I.E
    if kw or ignore_index is not True or kind_of(g) != 'dframe' or g.d['cols'] is not f.d['cols'] or not (f.d.get('obj') and g.d.get('obj')):
        raise Unsupported('append to a frame')
    return stack(E, f, g)


def stack(E, f, g):
    n, c1, c2 = f.d['n'], f.d['cell'], g.d['cell']

    def cell(l, r):
        c = simp(lt(r, n)) if isz(lt(r, n)) else lt(r, n)
        c = True if isz(c) and z3.is_true(c) else False if isz(c) and z3.is_false(c) else c
        if c is True:
            return c1(l, r)
        if c is False:
            return c2(l, conc(simp(sub(r, n))) if isz(sub(r, n)) else sub(r, n))
        return mv2(E, c, c1(l, r), c2(l, sub(r, n)))
    return obj_frame(E, conc(simp(zi(add(n, g.d['n'])))), f.d['cols'], cell)


def mv2(E, c, a, b):
    if is_num(a) and is_num(b):
        za, zb_ = z(a) if not isz(a) else a, z(b) if not isz(b) else b
        if za.sort() == zb_.sort():
            return ite(c, za, zb_)
        return ite(c, zr(a), zr(b))
    return merge_val(E, c, a, b)


@fn('dframe.infer_objects')
def df_infer(I, f):
    return frame(I.E, f.d['n'], f.d['cols'], f.d['cell'])


def _row(I, f, r):
    return Opaque('frow', f=f, r=r, ver=f.d['cell'])


def _row_index(I, f, r, loc):
    E = I.E
    n = f.d['n']
    if loc:
        E.oblige(inrange(r, n), 'the row exists')
        return r
    return norm_index(E, r, n)


_iloc_get0, _loc_get0 = GETITEM['iloc'], GETITEM.get('loc')


def _iloc_get2(I, v, ix):
    if is_num(ix):
        return _row(I, v.f, _row_index(I, v.f, ix, False))
    return _iloc_get0(I, v, ix)


def _loc_get2(I, v, ix):
    f = v.f
    if not f.d.get('obj'):
        if _loc_get0:
            return _loc_get0(I, v, ix)
        raise Unsupported('loc')
    if is_num(ix):
        return _row(I, f, _row_index(I, f, ix, True))
    if isinstance(ix, tuple) and len(ix) == 2 and is_num(ix[0]) and kind_of(ix[1]) == 'str':
        r = _row_index(I, f, ix[0], True)
        col_is(I, f, ix[1])
        return f.d['cell'](ix[1], r)
    raise Unsupported('loc')


GETITEM['iloc'] = _iloc_get2
GETITEM['loc'] = _loc_get2


def put_cell(I, f, l, r, v):
    E = I.E
    if not f.d.get('obj'):
        raise Unsupported('write to a row of mixed columns')
    col_is(I, f, l)
    cell, n = f.d['cell'], f.d['n']

    def c2(x, q):
        e = same_label(E, x, l)
        if e is False:
            return cell(x, q)
        w = True if isinstance(n, int) and n == 1 else eq(q, r)
        c = band(e, w)
        if c is True:
            return v
        if c is False:
            return cell(x, q)
        return mv2(E, c, v, cell(x, q))
    f.set(cell=c2, log=f.d['log'] + (('cell', l, r),))


def _loc_set2(I, v, ix, val):
    E = I.E
    f = v.f
    if isinstance(ix, tuple) and len(ix) == 2 and is_num(ix[0]):
        r = _row_index(I, f, ix[0], True)
        if kind_of(ix[1]) == 'str':
            return put_cell(I, f, ix[1], r, val)
        if isinstance(ix[1], PList) and is_num(val) and f.d.get('obj'):
            ls = ix[1]
            g = ls.getter()
            E.oblige(all_in(lambda i: list_contains(E, f.d['cols'], g(i)), ls.n), 'the columns exist')
            cell = f.d['cell']
            has = lambda x: list_contains(E, ls, x)

            def c2(x, q):
                e = has(x)
                if not isinstance(e, bool):
                    e = True if quick(E, zb(e)) or E.entails(zb(e)) else False if E.entails(Not(zb(e))) else e
                c = band(e, eq(q, r))
                if c is False:
                    return cell(x, q)
                return val if c is True else mv2(E, c, val, cell(x, q))
            f.set(cell=c2, log=f.d['log'] + (('row', r),))
            return
    raise Unsupported('loc assignment')


SETITEM['loc'] = _loc_set2
ATTR[('frow', 'at')] = ATTR[('frow', 'loc')] = lambda I, v: v


def _frow_get(I, v, l):
    if kind_of(l) != 'str':
        raise Unsupported('element of a row')
    if not v.f.d.get('obj') and v.f.d['cell'] is not v.ver:
        raise Unsupported('row of a frame that has changed')
    col_is(I, v.f, l)
    return v.f.d['cell'](l, v.r)


def _frow_set(I, v, l, val):
    put_cell(I, v.f, l, v.r, val)


GETITEM['frow'] = _frow_get
SETITEM['frow'] = _frow_set
ATTR[('dframe', 'at')] = lambda I, f: Opaque('loc', f=f)
