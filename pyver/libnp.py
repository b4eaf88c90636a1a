"""numpy: arrays of mathematical integers, reals, booleans and objects."""
import z3
from .terms import *
from . import prover
from .engine import *
from .values import *
from .lib import fn, prop, iterate, quick, eqdim, norm_index, nonneg, is_num, scal_bin, FN, slice_bounds, CMP, _isreal, kind_of, ITER
from .interp import NOASSIGN, conc_b

IS = z3.IntSort()


def dt_of(v):
    if isinstance(v, bool) or (isz(v) and v.sort() == B):
        return 'b'
    if isinstance(v, int) or (isz(v) and v.sort() == IS):
        return 'i'
    if isinstance(v, (float, Fraction)) or (isz(v) and v.sort() == R):
        return 'r'
    return 'o'


def typ_dt(t):
    if t is None:
        return None
    n = t if isinstance(t, str) else getattr(t, 'name', '')
    n = n.split('.')[-1]
    if n.startswith('int') or n in ('i', 'i8', 'i4') or n.startswith('uint'):
        return 'i'
    if n.startswith('float') or n in ('f', 'f8'):
        return 'r'
    if n.startswith('bool'):
        return 'b'
    if n == 'object':
        return 'o'
    raise Unsupported('dtype %s' % n)


WIDTHS = {'int8': (-2**7, 2**7), 'int16': (-2**15, 2**15), 'uint8': (0, 2**8), 'uint16': (0, 2**16), 'uint32': (0, 2**32), 'uint64': (0, 2**63), 'uint': (0, 2**63)}
DIGITS = {'float16': 2**11, 'float32': 2**24}


def narrow(t):
    n = t if isinstance(t, str) else getattr(t, 'name', '') if t is not None else ''
    return n.split('.')[-1]


def fits(t, v):
    """v survives the conversion to the narrow type t (None: the type is not narrow)"""
    n = narrow(t)
    if n in WIDTHS:
        lo, hi = WIDTHS[n]
        return And(lo <= zr(v), trunc(zr(v)) < hi)
    if n in DIGITS:
        return And(z3.IsInt(zr(v)), -DIGITS[n] <= zr(v), zr(v) <= DIGITS[n])
    return None


def as_arr(I, v):
    E = I.E
    if isinstance(v, PArr):
        return v
    if is_num(v):
        return PArr.of(E, dt_of(v), (), lambda idx: v)
    if isinstance(v, Opaque) and v.kind == 'meshgrid':
        raise Unsupported('meshgrid')
    if kind_of(v) == 'series':
        from . import libpd
        return libpd.series_arr(I, v)
    if isinstance(v, PSet):
        raise Unsupported('array of a set')
    if isinstance(v, (PList, tuple, PIter)):
        it = iterate(I, v)
        if isinstance(it.n, int) and it.n == 0:
            return PArr.of(E, 'r', (0,), lambda idx: POISON)
        if isinstance(it.n, int):
            items = [it.fn(IntVal(k)) for k in range(it.n)]
            if all(is_num(x) or kind_of(x) in ('str', 'inst', 'none') or isinstance(x, bool) for x in items):
                dts = {dt_of(x) for x in items}
                dt = 'o' if 'o' in dts else 'r' if 'r' in dts else 'i' if 'i' in dts else 'b'
                rd = PList.of(E, [coerce_dt(dt, x) for x in items]).getter()
                return PArr.of(E, dt, (it.n,), lambda idx: rd(idx[0]), inv=None)
            subs = [as_arr(I, x) for x in items]
            s0 = subs[0].shape
            for s in subs[1:]:
                if s.ndim != len(s0) or not all(eqdim(E, a, b) for a, b in zip(s.shape, s0)):
                    raise Unsupported('ragged array')
            dts = {s.dt for s in subs}
            dt = 'o' if 'o' in dts else 'r' if 'r' in dts else 'i' if 'i' in dts else 'b'
            rds = [s.reader() for s in subs]

            def rd(idx):
                k = conc(simp(idx[0])) if isz(idx[0]) else idx[0]
                if isinstance(k, int):
                    return coerce_dt(dt, rds[k](tuple(idx[1:])))
                v = coerce_dt(dt, rds[-1](tuple(idx[1:])))
                for q in range(len(rds) - 2, -1, -1):
                    v = merge_val(E, z(k) == q, coerce_dt(dt, rds[q](tuple(idx[1:]))), v)
                return v
            return PArr.of(E, dt, (it.n,) + tuple(s0), rd)
        probe = it.fn(bvar(IS))
        linv = getattr(it, 'inv', None)
        if is_num(probe) or kind_of(probe) in ('str', 'inst'):
            f = it.fn
            return PArr.of(E, dt_of(probe), (it.n,), lambda idx: f(idx[0]), inv=linv)
        if isinstance(probe, (PList, PArr)):
            f = it.fn
            p = as_arr(I, probe)
            # rows must have one length
            q = bvar(IS)
            sh = []
            for d in range(p.ndim):
                dim = as_arr(I, f(q)).shape[d]
                if isz(dim) and any(x.eq(q) for x in all_subterms(dim)):
                    d0 = as_arr(I, f(IntVal(0))).shape[d]
                    if not E.entails(all_in(lambda i: eq(as_arr(I, f(i)).shape[d], d0), it.n)):
                        raise Unsupported('ragged array')
                    dim = d0
                sh.append(dim)
            return PArr.of(E, p.dt, (it.n,) + tuple(sh), lambda idx: as_arr(I, f(idx[0])).get(*idx[1:]))
        if isinstance(probe, tuple):
            raise Unsupported('array of tuples')
    if kind_of(v) == 'str':
        return PArr.of(E, 'o', (), lambda idx: v)
    if isinstance(v, Opaque) and v.kind == 'dframe':
        from . import libpd
        return libpd.to_numpy(I, v)
    raise Unsupported('array from a ' + kind_of(v))


@fn('numpy.array', 'numpy.asarray')
def np_array(I, v, dtype=None, copy=True):
    E = I.E
    if isinstance(v, Opaque) and v.kind == 'meshgrid':
        return Opaque('mesharr', g=v)
    a = as_arr(I, v)
    dt = typ_dt(dtype)
    if isinstance(v, PArr):
        a = globals()['copy'](I, a)
    if dt is not None and dt != a.dt:
        return astype(I, a, dtype)
    return a


def copy(I, a):
    r = a.reader()
    c = PArr.of(I.E, a.dt, a.shape, r, masked=a.d['masked'], inv=a.d['linv'])
    if a.d.get('srcframe') is not None and a.d['srcframe'][2] is r:
        c.d['srcframe'] = a.d['srcframe']
    return c


@fn('arr.copy', 'arr.flatten_', 'numpy.copy')
def a_copy(I, a):
    return copy(I, a)


@fn('arr.astype')
def astype(I, a, t, copy=True):
    dt = typ_dt(t)
    r = a.reader()
    if narrow(t) in WIDTHS or narrow(t) in DIGITS:
        if a.dt not in 'ir' or a.d['masked'] is not None:
            raise Unsupported('narrow dtype %s' % narrow(t))
        ks = [bvar(IS, 'k') for _ in a.shape]
        I.E.oblige(ForAll(ks, Implies(And([zb(inrange(k, n)) for k, n in zip(ks, a.shape)]), fits(t, r(tuple(ks))))) if ks else fits(t, r(())), 'values fit the narrower type')
    if copy is not True:
        if copy is not False:
            raise Unsupported('astype with copy=%r' % (copy,))
        # widths are not tracked: the array itself or a copy of it
        if a.dt == dt and a.d['masked'] is None and I.E.choose(2) == 0:
            return a
    if a.dt == 'o':
        if dt == 'i' and getattr(a, 'digits', False):
            pass
        return PArr.of(I.E, dt, a.shape, lambda idx: coerce_dt(dt, r(idx)))
    m = a.d['masked']
    if m is not None:
        m = (m[0], m[1], lambda idx, f=m[2]: coerce_dt(dt, f(idx)))
    return PArr.of(I.E, dt, a.shape, lambda idx: coerce_dt(dt, r(idx)), masked=m)


@prop('arr', 'shape')
def p_shape(I, a):
    return tuple(a.shape)


@prop('arr', 'ndim')
def p_ndim(I, a):
    return a.ndim


@prop('arr', 'dtype')
def p_dtype(I, a):
    return Typ({'i': 'int', 'r': 'float', 'b': 'bool', 'o': 'object'}[a.dt])


@prop('arr', 'size')
def p_size(I, a):
    s = 1
    for d in a.shape:
        s = mul(s, d)
    return s


@prop('arr', 'T')
def p_T(I, a):
    E = I.E
    n = a.ndim
    if n < 2:
        return a
    return PArr.view(E, a, a.shape[::-1], lambda idx: tuple(idx[::-1]), lambda b: (True, tuple(b[::-1])))


@prop('arr', 'values')
def p_values(I, a):
    return a


@fn('numpy.transpose', 'arr.transpose')
def np_transpose(I, a):
    return p_T(I, as_arr(I, a))


def broadcast(E, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        dims = [s[d - (n - len(s))] for s in shapes if d - (n - len(s)) >= 0]
        big = [x for x in dims if not cis(x, 1)]
        if not big:
            out.append(1)
            continue
        for x in big[1:]:
            if not eqdim(E, big[0], x):
                # a symbolic dimension of 1 would broadcast as well: require equality
                E.oblige(eq(big[0], x), 'operands have the same shape')
        out.append(big[0])
    return out


def bidx(shape, idx):
    k = len(idx) - len(shape)
    return tuple(0 if conc(s) == 1 else i for s, i in zip(shape, idx[k:]))


def elementwise(I, op, a, b):
    E = I.E
    if (kind_of(a) == 'none' or kind_of(b) == 'none') and op in ('Eq', 'NotEq'):
        raise Unsupported('array == None')
    if kind_of(a) == 'str' or kind_of(b) == 'str' or isinstance(a, tuple) or isinstance(b, tuple) or True:
        a, b = as_arr(I, a), as_arr(I, b)
    sh = broadcast(E, [a.shape, b.shape])
    ra, rb, sa, sb = a.reader(), b.reader(), a.shape, b.shape
    if op == 'Div':
        dt = 'r'
    elif op in ('Add', 'Sub', 'Mult', 'Mod', 'FloorDiv', 'Pow'):
        dt = 'r' if 'r' in (a.dt, b.dt) else 'i'
    elif op in ('BitAnd', 'BitOr', 'BitXor'):
        dt = 'b' if a.dt == b.dt == 'b' else None
    elif op in CMP or op in ('Eq', 'NotEq'):
        dt = 'b'
    else:
        dt = None
    if dt is None or ('o' in (a.dt, b.dt) and op not in ('Eq', 'NotEq')):
        raise Unsupported('array operator ' + op)

    def opf(x, y):
        if x is POISON or y is POISON:
            return POISON
        if op in CMP:
            r = rel(CMP[op], x, y)
            if E.nanaware and (_isreal(x) or _isreal(y)):
                r = band(bnot(isnan(zr(x))), bnot(isnan(zr(y))), r)
            return r
        if op in ('Eq', 'NotEq'):
            r = veq(x, y)
            return r if op == 'Eq' else bnot(r)
        if op == 'Div':
            return div(zr(x), zr(y))
        if op in ('Mod', 'FloorDiv'):
            if isconc(conc(y)) and conc(y) > 0 or quick(E, zi(y) > 0):
                return conc(zi(x) / zi(y) if op == 'FloorDiv' else zi(x) % zi(y))
            raise Unsupported('array % or // with a divisor not known to be positive')
        return scal_bin(E, op, x, y)
    masked = None
    ma, mb = a.d['masked'], b.d['masked']
    if ma is not None and (len(sb) < len(sa) or (len(sb) == len(sa) and conc(sb[0]) == 1)):
        masked = (ma[0], ma[1], lambda idx: opf(ma[2](idx), rb(bidx(sb, idx))))
    elif mb is not None and (len(sa) < len(sb)):
        masked = (mb[0], mb[1], lambda idx: opf(ra(bidx(sa, idx)), mb[2](idx)))
    elif ma is not None and mb is not None and len(sa) == len(sb) and same_mask(ma, mb):
        masked = (ma[0], ma[1], lambda idx: opf(ma[2](idx), mb[2](idx)))
    return PArr.of(E, dt, sh, lambda idx: opf(ra(bidx(sa, idx)), rb(bidx(sb, idx))), masked=masked)


def same_mask(ma, mb):
    if not same(ma[0], mb[0]):
        return False
    q = bvar(IS)
    return z(zb(ma[1](q))).eq(zb(mb[1](q)))


def map1(I, a, f, dt):
    r = a.reader()
    m = a.d['masked']
    if m is not None:
        m = (m[0], m[1], lambda idx, g=m[2]: f(g(idx)))
    return PArr.of(I.E, dt, a.shape, lambda idx: f(r(idx)), masked=m)


def iter_arr(I, a):
    E = I.E
    if a.ndim == 0:
        raise PyRaise('TypeError')
    if a.ndim == 1:
        r = a.reader()
        it = PIter(a.shape[0], lambda i: r((i,)))
        it.inv = a.d['linv']
        return it

    def row(i):
        i = conc(simp(i)) if isz(i) else i
        return row_view(E, a, i)
    it = PIter(a.shape[0], row)
    it.arr = a
    return it


def row_view(E, a, i):
    return PArr.view(E, a, a.shape[1:], lambda idx: (i,) + tuple(idx), lambda b: (eq(b[0], i), tuple(b[1:])))


# ------------------------------------------------------------------------- indexing

def getitem(I, a, ix):
    E = I.E
    if not isinstance(ix, tuple):
        ix = (ix,)
    if any(x is Ellipsis for x in ix):
        raise Unsupported('ellipsis')
    if len(ix) == 1 and isinstance(ix[0], (PArr, PList)):
        m = as_arr(I, ix[0])
        if m.dt == 'b':
            return mask_index(I, a, m)
        return fancy(I, a, 0, m)
    if len(ix) == 1 and isinstance(ix[0], tuple):
        raise Unsupported('tuple of indexes')
    if len(ix) > a.ndim:
        raise PyRaise('IndexError')
    adv = [k for k, x in enumerate(ix) if isinstance(x, (PArr, PList))]
    if len(adv) > 1:
        raise Unsupported('several index arrays')
    if len(adv) == 1:
        k = adv[0]
        base = getitem(I, a, tuple(x if j != k else Slice(None, None, None) for j, x in enumerate(ix))) if len(ix) > 1 else a
        ax = sum(1 for x in ix[:k] if isinstance(x, Slice))
        m = as_arr(I, ix[k])
        if m.dt == 'b':
            return mask_axis(I, base, ax, m)
        return fancy(I, base, ax, m)
    # basic indexing -> view
    shape, plan = [], []
    for d, x in enumerate(ix):
        if isinstance(x, Slice):
            if x.lo is None and x.hi is None and x.step is None:
                lo, n = 0, a.shape[d]
            else:
                lo, n = slice_bounds(E, x, a.shape[d])
            shape.append(n)
            plan.append(('s', lo, n))
        elif x is None:
            raise Unsupported('newaxis')
        else:
            i = norm_index(E, x, a.shape[d])
            plan.append(('i', i))
    rest = a.ndim - len(ix)
    shape += list(a.shape[len(ix):])
    if not shape:
        return conc(a.get(*[p[1] for p in plan]))
    if all(p[0] == 's' and same(p[1], 0) and same(p[2], a.shape[d]) for d, p in enumerate(plan)) and False:
        return a

    def fwd(idx):
        idx = list(idx)
        out = []
        for p in plan:
            if p[0] == 's':
                out.append(add(idx.pop(0), p[1]))
            else:
                out.append(p[1])
        return tuple(out + idx)

    a_shape = a.shape

    def inv(b):
        c, out, skipped = [], [], 0
        for p, x in zip(plan, b):
            if p[0] == 's':
                j = sub(x, p[1])
                if not same(p[1], 0):
                    c.append(le(0, j))
                if not same(p[2], a_shape[len(out) + skipped]):
                    c.append(lt(j, p[2]))
                out.append(j)
            else:
                c.append(eq(x, p[1]))
                skipped += 1
        return band(*c), tuple(out) + tuple(b[len(plan):])
    r = PArr.view(E, a, shape, fwd, inv)
    m = a.d['masked']
    if m is not None and plan[0][0] == 's' and same(plan[0][1], 0) and same(plan[0][2], a.shape[0]):
        r.d['masked'] = (m[0], m[1], lambda idx: m[2](fwd(idx)))
    if a.ndim == 1 and a.d['linv'] is not None and same(plan[0][1], 0) and plan[0][0] == 's':
        r.d['linv'] = a.d['linv']
    return r


def mask_index(I, a, m):
    E = I.E
    if m.ndim == 1:
        return mask_axis(I, a, 0, m)
    if m.ndim == 2 and a.ndim == 2:
        if not (eqdim(E, m.shape[0], a.shape[0]) and eqdim(E, m.shape[1], a.shape[1])):
            E.oblige(band(eq(m.shape[0], a.shape[0]), eq(m.shape[1], a.shape[1])), 'mask has the shape of the array')
        return Opaque('mask2', a=copy(I, a), m=copy(I, m))
    raise Unsupported('mask of rank %d' % m.ndim)


def mask_axis(I, a, ax, m):
    E = I.E
    n = a.shape[ax]
    if not eqdim(E, n, m.shape[0]):
        E.oblige(eq(n, m.shape[0]), 'mask has the length of the axis')
    rm, ra = m.reader(), a.reader()
    if isinstance(conc(n), int):
        vals = [conc(zb(rm((k,)))) if not isinstance(rm((k,)), bool) else rm((k,)) for k in range(n)]
        if all(isinstance(v, bool) for v in vals):
            ks = [k for k, v in enumerate(vals) if v]
            return fancy(I, a, ax, as_arr(I, PList.of(E, ks)) if ks else PArr.of(E, 'i', (0,), lambda idx: POISON))
    p = lambda k: zb(rm((k,)))
    l = Lambda_b(p)
    n = zi(n)
    if z3.is_true(z3.simplify(beta(l, bvar(IS)))):
        return PArr.of(E, a.dt, a.shape, ra, masked=a.d['masked'], inv=a.d['linv'])
    c = Cnt(l, n)
    E.assume(c >= 0)
    E.assume(Implies(n >= 0, c <= n))
    shape = list(a.shape)
    shape[ax] = c

    def rd(idx):
        idx = list(idx)
        idx[ax] = Sel(l, n, zi(idx[ax]))
        return ra(tuple(idx))
    masked = (n, p, ra) if ax == 0 else None
    linv = None
    if a.ndim == 1 and a.d['linv'] is not None:
        src = a.d['linv']
        linv = lambda x: Rank(l, n, zi(src(x)))
    out = PArr.of(E, a.dt, shape, rd, masked=masked, inv=linv)
    return out


def fancy(I, a, ax, m):
    E = I.E
    if m.ndim != 1:
        raise Unsupported('index array of rank %d' % m.ndim)
    if m.dt == 'r' and same(m.shape[0], 0):
        raise PyRaise('IndexError')
    if m.dt != 'i':
        raise Unsupported('index array of dtype ' + m.dt)
    n = a.shape[ax]
    rm, ra = m.reader(), a.reader()
    g = all_in(lambda k: And(0 <= zi(rm((k,))), zi(rm((k,))) < zi(n)), m.shape[0])
    if not E.entails(g):
        # negative indexes wrap around
        g2 = all_in(lambda k: And(-zi(n) <= zi(rm((k,))), zi(rm((k,))) < zi(n)), m.shape[0])
        E.oblige(g2, 'indexes in range')
        fix = lambda i: If(zi(i) < 0, zi(i) + zi(n), zi(i))
    else:
        E.oblige(g, 'indexes in range', assume=False)
        fix = lambda i: i
    shape = list(a.shape)
    shape[ax] = m.shape[0]

    def rd(idx):
        idx = list(idx)
        idx[ax] = fix(rm((idx[ax],)))
        return ra(tuple(idx))
    masked = None
    md = a.d['masked']
    if md is not None and ax > 0:
        def mrd(idx):
            idx = list(idx)
            idx[ax] = fix(rm((idx[ax],)))
            return md[2](tuple(idx))
        masked = (md[0], md[1], mrd)
    return PArr.of(E, a.dt, shape, rd, masked=masked)


def setitem(I, a, ix, val):
    E = I.E
    if not isinstance(ix, tuple):
        ix = (ix,)
    adv = [k for k, x in enumerate(ix) if isinstance(x, (PArr, PList))]
    if adv:
        if len(ix) == 1:
            m = as_arr(I, ix[0])
            if m.dt == 'b' and m.ndim == a.ndim:
                if not is_num(val):
                    raise Unsupported('mask assignment of an array')
                rm = m.reader()
                a.write(lambda idx: zb(rm(tuple(idx))), lambda idx: val)
                return
            if m.dt == 'i' and a.ndim == 1 and m.ndim == 1:
                return scatter(I, a, m, val)
        if len(ix) == 2 and len(adv) == 2 and a.ndim == 2:
            m1, m2 = as_arr(I, ix[0]), as_arr(I, ix[1])
            if m1.dt == 'i' and m2.dt == 'i' and m1.ndim == m2.ndim == 1:
                r1, r2, n = m1.reader(), m2.reader(), m1.shape[0]
                return scatter2(I, a, r1, r2, n, val)
        raise Unsupported('index-array assignment')
    if all(not isinstance(x, Slice) for x in ix) and len(ix) == a.ndim:
        pos = [norm_index(E, x, a.shape[d]) for d, x in enumerate(ix)]
        v = val
        if isinstance(v, PArr):
            if v.ndim == 0:
                v = v.get()
            elif a.dt == 'o':
                v = val
            elif v.ndim == 1 and conc(v.shape[0]) == 1:
                v = v.get(0)
            else:
                raise Unsupported('array into a cell')
        a.write(lambda idx: band(*[eq(i, p) for i, p in zip(idx, pos)]), lambda idx: v)
        return
    tgt = getitem(I, a, ix)
    v = as_arr(I, val) if not is_num(val) else None
    if v is None:
        tgt.write(lambda idx: True, lambda idx: val)
        return
    if v.ndim > tgt.ndim:
        raise PyRaise('ValueError')
    k = tgt.ndim - v.ndim
    for s, t in zip(v.shape, tgt.shape[k:]):
        if conc(s) == 1:
            continue
        if not eqdim(E, s, t):
            E.oblige(eq(s, t), 'assigned array has the shape of the target')
    rv, sv = v.reader(), v.shape
    if tgt.dt == 'i' and v.dt == 'r':
        tgt.write(lambda idx: True, lambda idx: trunc(zr(rv(bidx(sv, idx)))))
    else:
        tgt.write(lambda idx: True, lambda idx: rv(bidx(sv, idx)))


def scatter(I, a, m, val):
    """a[m] = val: the last position that hits an index wins; positions must not repeat unless the value is one scalar"""
    E = I.E
    rm, n, N = m.reader(), m.shape[0], a.shape[0]
    ixf = lambda k: zi(rm((k,)))
    E.oblige(all_in(lambda k: And(0 <= ixf(k), ixf(k) < zi(N)), n), 'indexes in range')
    v = None if is_num(val) else as_arr(I, val)
    if v is not None:
        if v.ndim != 1:
            raise Unsupported('scatter of rank %d' % v.ndim)
        if not cis(v.shape[0], 1) and not eqdim(E, v.shape[0], n):
            E.oblige(eq(v.shape[0], n), 'as many values as indexes')
    dv = block_index(E, ixf, n)
    if dv is not None:
        # one index per block of dv positions: position i can only be hit by index i div dv
        inv = lambda i: zi(i) / dv
        hit = lambda i: band(inrange(inv(i), n), ixf(inv(i)) == zi(i))
        if v is None:
            a.write(lambda idx: hit(idx[0]), lambda idx: val)
        else:
            rv = v.reader()
            one = conc(v.shape[0]) == 1
            a.write(lambda idx: hit(idx[0]), lambda idx: rv((0,)) if one else rv((inv(idx[0]),)))
        return
    if v is not None:
        E.oblige(ForAll_(lambda p, q: imp(band(inrange(p, n), inrange(q, n), ixf(p) == ixf(q)), p == q)), 'indexes do not repeat')
    w = E.freshfn('hit', IS, IS)
    q = bvar(IS, 'q')
    hit = lambda i: band(inrange(w(zi(i)), n), ixf(w(zi(i))) == zi(i))
    # every index of m is hit
    E.assume(ForAll([q], Implies(zb(inrange(q, n)), And(zb(hit(ixf(q))), w(ixf(q)) == q if v is not None else True))))
    E.witness.append((w, ixf, n))
    if v is None:
        a.write(lambda idx: hit(idx[0]), lambda idx: val)
    else:
        rv = v.reader()
        one = conc(v.shape[0]) == 1
        a.write(lambda idx: hit(idx[0]), lambda idx: rv((0,)) if one else rv((w(zi(idx[0])),)))


def block_index(E, ixf, n):
    """a dimension d with q*d <= ixf(q) < q*d + d for every q < n, if there is one"""
    seen = set()
    for o in reversed(E.objs):
        for d in (o.shape if isinstance(o, PArr) else ()):
            if not isz(d) or d.num_args() or d.get_id() in seen or z3.is_int_value(d):
                continue
            seen.add(d.get_id())
            if len(seen) <= 4 and E.entails(z3.And(d >= 1, zb(all_in(lambda q: And(zi(q) * d <= ixf(q), ixf(q) < zi(q) * d + d), n))), timeout=600):
                return d
    return None


def scatter2(I, a, r1, r2, n, val):
    E = I.E
    if not is_num(val):
        raise Unsupported('pair scatter of an array')
    E.oblige(all_in(lambda k: And(0 <= zi(r1((k,))), zi(r1((k,))) < zi(a.shape[0]), 0 <= zi(r2((k,))), zi(r2((k,))) < zi(a.shape[1])), n), 'indexes in range')
    a.write(lambda idx: mk_any(lambda k: And(zi(r1((k,))) == zi(idx[0]), zi(r2((k,))) == zi(idx[1])), n), lambda idx: val)


def ForAll_(f):
    return forall(f, IS, IS)


# ------------------------------------------------------------------------- reductions

def reduce(I, a, axis, op):
    E = I.E
    f = {'sum': mk_sum, 'prod': mk_prod, 'all': mk_all, 'any': mk_any}[op]
    dt = 'b' if op in ('all', 'any') else 'i' if a.dt == 'b' else a.dt
    r = a.reader()
    if a.dt == 'b' and op in ('sum', 'prod'):
        r0 = r
        r = lambda idx: zi(r0(idx))
    if op in ('all', 'any') and a.dt != 'b':
        r1 = r
        r = lambda idx: bnot(eq(r1(idx), 0))
    zero = {'sum': 0, 'prod': 1, 'all': True, 'any': False}[op]
    md = a.d['masked']

    def conv(v):
        return coerce_dt(dt, v) if dt in ('r', 'i') else v

    def mred(idx_rest):
        g = md[2]
        val = lambda k: g((k,) + tuple(idx_rest))
        if a.dt == 'b' and op in ('sum', 'prod'):
            val0 = val
            val = lambda k: zi(val0(k))
        if op == 'all':
            return mk_all(lambda k: imp(md[1](k), val(k)), md[0])
        if op == 'any':
            return mk_any(lambda k: band(md[1](k), val(k)), md[0])
        return conv(f(lambda k: ite(md[1](k), val(k), zero), md[0]))
    if axis is None:
        if a.ndim == 0:
            return r(())
        if a.ndim == 1:
            if md is not None:
                return conc(mred(()))
            return conc(conv(f(lambda k: r((k,)), a.shape[0])))
        if a.ndim == 2:
            return conc(conv(f(lambda k: f(lambda l: r((k, l)), a.shape[1]), a.shape[0])))
        raise Unsupported('reduction of rank %d' % a.ndim)
    ax = conc(axis)
    if ax < 0:
        ax += a.ndim
    if ax >= a.ndim:
        raise PyRaise('AxisError')
    shape = list(a.shape)
    n = shape.pop(ax)
    if not shape:
        return reduce(I, a, None, op)
    if ax == 0 and md is not None:
        return PArr.of(E, dt, shape, lambda idx: mred(idx))
    masked = None
    if md is not None and ax > 0:
        g = md[2]
        masked = (md[0], md[1], lambda idx: conv(f(lambda k: g(tuple(idx[:ax]) + (k,) + tuple(idx[ax:])), n)))
    return PArr.of(E, dt, shape, lambda idx: conv(f(lambda k: r(tuple(idx[:ax]) + (k,) + tuple(idx[ax:])), n)), masked=masked)


@fn('arr.sum')
def a_sum(I, a, axis=None):
    return reduce(I, a, axis, 'sum')


@fn('numpy.prod', 'arr.prod', 'numpy.product')
def np_prod(I, a, axis=None):
    return reduce(I, as_arr(I, a), axis, 'prod')


@fn('numpy.all', 'arr.all')
def np_all(I, a, axis=None):
    return reduce(I, as_arr(I, a), axis, 'all')


@fn('numpy.any', 'arr.any')
def np_any(I, a, axis=None):
    return reduce(I, as_arr(I, a), axis, 'any')


@fn('arr.max', 'numpy.max', 'numpy.amax')
def a_max(I, a):
    return FN['builtins.max'](I, as_arr(I, a))


@fn('arr.min', 'numpy.min', 'numpy.amin')
def a_min(I, a):
    return FN['builtins.min'](I, as_arr(I, a))


@fn('numpy.count_nonzero')
def np_cnz(I, a):
    a = as_arr(I, a)
    r = a.reader()
    if a.ndim != 1:
        raise Unsupported('count_nonzero')
    return mk_sum(lambda k: ite(bnot(eq(r((k,)), 0)) if a.dt != 'b' else r((k,)), 1, 0), a.shape[0])


@fn('arr.cumprod', 'numpy.cumprod')
def a_cumprod(I, a):
    a = as_arr(I, a)
    if a.ndim != 1:
        raise Unsupported('cumprod')
    r = a.reader()
    return PArr.of(I.E, a.dt, a.shape, lambda idx: mk_prod(lambda k: r((k,)), add(idx[0], 1)))


@fn('arr.cumsum', 'numpy.cumsum')
def a_cumsum(I, a):
    a = as_arr(I, a)
    if a.ndim != 1:
        raise Unsupported('cumsum')
    r = a.reader()
    return PArr.of(I.E, a.dt, a.shape, lambda idx: mk_sum(lambda k: r((k,)), add(idx[0], 1)))


@fn('numpy.dot', 'arr.dot', 'numpy.matmul')
def np_dot(I, a, b):
    E = I.E
    a, b = as_arr(I, a), as_arr(I, b)
    if not (a.ndim in (1, 2) and b.ndim == 1):
        raise Unsupported('dot')
    p = elementwise(I, 'Mult', a, b)
    return reduce(I, p, a.ndim - 1, 'sum')


# ------------------------------------------------------------------------- construction

def shape_of(I, s):
    if is_num(s):
        return (conc(s),)
    it = iterate(I, s)
    if not isinstance(it.n, int):
        raise Unsupported('shape of symbolic rank')
    return tuple(conc(zi(it.fn(IntVal(k)))) for k in range(it.n))


@fn('numpy.zeros', 'numpy.empty_')
def np_zeros(I, shape, dtype=None):
    dt = typ_dt(dtype) or 'r'
    return PArr.of(I.E, dt, shape_of(I, shape), lambda idx: coerce_dt(dt, 0))


@fn('numpy.ones')
def np_ones(I, shape, dtype=None):
    dt = typ_dt(dtype) or 'r'
    return PArr.of(I.E, dt, shape_of(I, shape), lambda idx: coerce_dt(dt, 1))


@fn('numpy.zeros_like')
def np_zeros_like(I, a, dtype=None):
    a = as_arr(I, a)
    dt = typ_dt(dtype) or a.dt
    return PArr.of(I.E, dt, a.shape, lambda idx: coerce_dt(dt, 0))


@fn('numpy.full')
def np_full(I, shape, v, dtype=None):
    dt = typ_dt(dtype) or dt_of(v)
    return PArr.of(I.E, dt, shape_of(I, shape), lambda idx: coerce_dt(dt, v))


@fn('numpy.empty')
def np_empty(I, shape, dtype=None):
    E = I.E
    dt = typ_dt(dtype) or 'r'
    sh = shape_of(I, shape)
    f = E.freshfn('junk', *([IS] * len(sh) + [{'r': R, 'i': IS, 'b': B}[dt]]))
    return PArr.of(E, dt, sh, lambda idx: f(*[zi(i) for i in idx]))


@fn('numpy.arange')
def np_arange(I, *a, dtype=None):
    it = FN['builtins.range'](I, *a)
    return PArr.of(I.E, 'i', (it.n,), lambda idx: it.fn(idx[0]), inv=it.inv)


@fn('numpy.eye', 'numpy.identity')
def np_eye(I, n, dtype=None):
    dt = typ_dt(dtype) or 'r'
    return PArr.of(I.E, dt, (n, n), lambda idx: eq(idx[0], idx[1]) if dt == 'b' else coerce_dt(dt, ite(eq(idx[0], idx[1]), 1, 0)))


@fn('numpy.append')
def np_append(I, a, b, axis=None):
    E = I.E
    if axis is not None:
        raise Unsupported('append axis')
    return concat(I, [as_arr(I, a), as_arr(I, b)])


def concat(I, arrs):
    E = I.E
    arrs = [ravel(I, x) for x in arrs]
    dts = {x.dt for x in arrs}
    # an empty float array appended to integers makes floats, with the same values
    dt = 'o' if 'o' in dts else 'r' if 'r' in dts else 'i' if 'i' in dts else 'b'
    off, parts = 0, []
    for x in arrs:
        parts.append((off, x.shape[0], x.reader()))
        off = add(off, x.shape[0])

    def rd(idx):
        i = idx[0]
        v = None
        for lo, n, r in reversed(parts):
            if isinstance(conc(n), int) and n == 0:
                continue
            x = lambda: coerce_dt(dt, r((sub(i, lo),)))
            if v is None:
                v = x()
            else:
                c = lt(i, add(lo, n))
                v = x() if c is True else v if c is False else merge_val(E, c, x(), v)
        return v if v is not None else POISON
    linv = None
    return PArr.of(E, dt, (off,), rd, inv=linv)


@fn('numpy.concatenate', 'numpy.hstack')
def np_concat(I, l, axis=0):
    it = iterate(I, l)
    if not isinstance(it.n, int):
        raise Unsupported('concatenate')
    arrs = [as_arr(I, it.fn(IntVal(k))) for k in range(it.n)]
    if any(a.ndim != 1 for a in arrs):
        raise Unsupported('concatenate of rank > 1')
    return concat(I, arrs)


@fn('numpy.insert')
def np_insert(I, a, i, v):
    a = as_arr(I, a)
    if conc(i) == 0 and is_num(v):
        return concat(I, [as_arr(I, PList.of(I.E, [v])), a])
    raise Unsupported('numpy.insert')


@fn('numpy.delete')
def np_delete(I, a, i):
    E = I.E
    a = as_arr(I, a)
    i = norm_index(E, i, a.shape[0])
    r = a.reader()

    def rd(idx):
        c = lt(idx[0], i)
        if isinstance(c, bool):
            return r((idx[0],)) if c else r((add(idx[0], 1),))
        return merge_val(E, c, r((idx[0],)), r((add(idx[0], 1),)))
    return PArr.of(E, a.dt, (sub(a.shape[0], 1),), rd)


@fn('numpy.tile', 'numpy.repeat')
def np_tile(I, a, n):
    raise Unsupported('tile/repeat')


def ravel(I, a):
    E = I.E
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        v = a.get()
        return PArr.of(E, a.dt, (1,), lambda idx: v)
    n = 1
    for d in a.shape:
        n = mul(n, d)
    sh = a.shape

    def fwd(idx):
        t = zi(idx[0])
        out = []
        for d in reversed(sh[1:]):
            out.append(t % zi(d))
            t = t / zi(d)
        out.append(t)
        return tuple(reversed(out))

    def inv(b):
        t = b[0]
        for x, d in zip(b[1:], sh[1:]):
            t = add(mul(t, d), x)
        return True, (t,)
    return PArr.view(E, a, (n,), fwd, inv)


@fn('arr.ravel', 'numpy.ravel')
def a_ravel(I, a):
    return ravel(I, as_arr(I, a))


@fn('arr.flatten')
def a_flatten(I, a):
    return copy(I, ravel(I, a))


@fn('arr.reshape', 'numpy.reshape')
def a_reshape(I, a, *shape):
    E = I.E
    if len(shape) == 1 and not is_num(shape[0]):
        shape = shape_of(I, shape[0])
    shape = [conc(s) for s in shape]
    flat_ = ravel(I, a)
    N = flat_.shape[0]
    r = flat_.reader()
    if shape == [-1]:
        return flat_
    if shape.count(-1) > 1:
        raise PyRaise('ValueError')
    if -1 in shape and not cis(shape[0], -1):
        if len(shape) != 2:
            raise Unsupported('reshape')
        # (k, -1): columns unknown
        m = E.fresh(IS, 'cols')
        E.assume(m >= 0)
        E.assume(zi(shape[0]) * m == zi(N))
        E.oblige(lt(0, shape[0]), 'reshape divides')
        E.oblige(eq(zi(N) % zi(shape[0]), 0), 'reshape divides', assume=False)
        sh = [shape[0], m]
    elif shape[0] == -1:
        k = 1
        for s in shape[1:]:
            k = mul(k, s)
        rows = None
        for c in dim_candidates(E):
            if E.entails(zi(N) == zi(mul(c, k)), 400):
                rows = c
                break
        E.oblige(lt(0, k), 'reshape has positive columns')
        if rows is None:
            rows = E.fresh(IS, 'rows')
            E.oblige(zi(N) % zi(k) == 0, 'reshape divides')
            E.assume(zi(rows) * zi(k) == zi(N))
            E.assume(rows >= 0)
        else:
            E.oblige(zi(N) == zi(mul(rows, k)), 'reshape divides')
        sh = [rows] + shape[1:]
    else:
        k = 1
        for s in shape:
            k = mul(k, s)
        if not eqdim(E, k, N):
            E.oblige(eq(k, N), 'reshape keeps the size')
        sh = shape

    def fwd(idx):
        t = idx[0]
        for x, d in zip(idx[1:], sh[1:]):
            t = add(mul(t, d), x)
        return (t,)
    return PArr.of(E, a.dt, sh, lambda idx: r(fwd(idx)))


def dim_candidates(E):
    out, seen = list(E.dimcands), set()
    for o in E.objs:
        if isinstance(o, PArr):
            for s in o.shape:
                if isz(s) and not z3.is_int_value(s) and s.get_id() not in seen:
                    seen.add(s.get_id())
                    out.append(s)
    key = lambda s: 0 if isz(s) and prover.has_binder(s) else 1
    return out[:len(E.dimcands)] + sorted(out[len(E.dimcands):], key=key)[:6]


@fn('numpy.bincount')
def np_bincount(I, x, weights=None, minlength=0):
    E = I.E
    x = as_arr(I, x)
    if x.dt != 'i':
        raise PyRaise('TypeError')
    rx, n = x.reader(), x.shape[0]
    md = x.d['masked']
    if md is not None:
        N, P, g = md
        if weights is not None and (not isinstance(weights, PArr) or weights.d['masked'] is None or not same_mask(md, weights.d['masked'])):
            raise Unsupported('weights of a masked bincount')
        wf = (lambda k: weights.d['masked'][2]((k,))) if weights is not None else None
        val = lambda k: zi(g((k,)))
        rng = lambda k: band(inrange(k, N), P(k))
    else:
        N, P = n, None
        w = as_arr(I, weights) if weights is not None else None
        if w is not None and not eqdim(E, w.shape[0], n):
            E.oblige(eq(w.shape[0], n), 'one weight per element')
        rw = w.reader() if w is not None else None
        wf = (lambda k: rw((k,))) if w is not None else None
        val = lambda k: zi(rx((k,)))
        rng = lambda k: inrange(k, N)
    E.oblige(forall(lambda k: imp(rng(k), val(k) >= 0), IS), 'bincount of non-negative integers')
    top = forall(lambda k: imp(rng(k), val(k) < zi(minlength)), IS)
    if E.entails(top, 3000, 3):
        E.oblige(top, 'bincount stays below minlength')
        L = conc(minlength)
    else:
        L = E.fresh(IS, 'binlen')
        E.assume(zi(L) >= zi(minlength))
        E.assume(forall(lambda k: imp(rng(k), val(k) < zi(L)), IS))
        E.binmore.append((L, minlength))
    one = Fraction(1) if weights is not None else 1

    def cell(idx):
        b = idx[0]
        hit = lambda k: band(P(k) if P is not None else True, val(k) == zi(b))
        return mk_sum(lambda k: ite(hit(k), zr(wf(k)) if wf is not None else IntVal(1), RealVal(0) if wf is not None else IntVal(0)), N)
    return PArr.of(E, 'r' if weights is not None else 'i', (L,), cell)


# ------------------------------------------------------------------------- matrices

@fn('arr.diagonal', 'numpy.diagonal', 'numpy.diag')
def a_diag(I, a):
    E = I.E
    a = as_arr(I, a)
    if a.ndim != 2:
        raise Unsupported('diagonal')
    if not eqdim(E, a.shape[0], a.shape[1]):
        raise Unsupported('diagonal of a non-square matrix')
    if a.dt == 'o':
        raise Unsupported('diag')
    v = PArr.view(E, a, (a.shape[0],), lambda idx: (idx[0], idx[0]), None)
    return v


@fn('numpy.fill_diagonal')
def np_filldiag(I, a, v):
    E = I.E
    if a.ndim != 2:
        raise Unsupported('fill_diagonal')
    if not eqdim(E, a.shape[0], a.shape[1]):
        raise Unsupported('fill_diagonal of a non-square matrix')
    if is_num(v):
        a.write(lambda idx: eq(idx[0], idx[1]), lambda idx: v)
        return
    v = as_arr(I, v)
    if v.ndim == 1 and not eqdim(E, v.shape[0], a.shape[0]):
        raise Unsupported('fill_diagonal with another length')
    rv = v.reader()
    a.write(lambda idx: eq(idx[0], idx[1]), lambda idx: rv((idx[0],)))


@fn('numpy.isin', 'numpy.in1d')
def np_isin(I, a, b, **kw):
    E = I.E
    a = as_arr(I, a)
    if a.ndim != 1 or kw:
        raise Unsupported('isin')
    ra = a.reader()
    if isinstance(b, PSet):
        raise Unsupported('numpy.isin of a set')
    if isinstance(b, PList) and b.d['inv'] is not None:
        from .lib import list_contains
        l = PList.sym(E, b.n, b.getter(), inv=b.d['inv'])
        return PArr.of(E, 'b', a.shape, lambda idx: list_contains(E, l, ra(idx)))
    b = ravel(I, as_arr(I, b))
    rb, n = b.reader(), b.shape[0]
    return PArr.of(E, 'b', a.shape, lambda idx: mk_any(lambda k: veq(rb((k,)), ra(idx)), n))


@fn('numpy.argwhere')
def np_argwhere(I, a):
    a = as_arr(I, a)
    if a.ndim != 1:
        raise Unsupported('argwhere')
    w = where1(I, a)
    r = w.reader()
    return PArr.of(I.E, 'i', (w.shape[0], 1), lambda idx: r((idx[0],)))


def where1(I, a):
    E = I.E
    r = a.reader()
    p = (lambda k: zb(r((k,)))) if a.dt == 'b' else (lambda k: zb(bnot(eq(r((k,)), 0))))
    l = Lambda_b(p)
    n = zi(a.shape[0])
    c = Cnt(l, n)
    E.assume(c >= 0)
    E.assume(Implies(n >= 0, c <= n))
    return PArr.of(E, 'i', (c,), lambda idx: Sel(l, n, zi(idx[0])))


@fn('numpy.where')
def np_where(I, c, a=None, b=None):
    E = I.E
    c = as_arr(I, c)
    if a is None:
        if c.ndim != 1:
            raise Unsupported('where')
        return (where1(I, c),)
    a, b = as_arr(I, a), as_arr(I, b)
    sh = broadcast(E, [c.shape, a.shape, b.shape])
    rc, ra, rb = c.reader(), a.reader(), b.reader()
    dt = 'o' if 'o' in (a.dt, b.dt) else 'r' if 'r' in (a.dt, b.dt) else 'i' if 'i' in (a.dt, b.dt) else 'b'
    return PArr.of(E, dt, sh, lambda idx: merge_val(E, zb(rc(bidx(c.shape, idx))), coerce_dt(dt, ra(bidx(a.shape, idx))), coerce_dt(dt, rb(bidx(b.shape, idx)))))


@fn('numpy.nonzero', 'numpy.flatnonzero')
def np_nonzero(I, a):
    raise Unsupported('nonzero')


@fn('numpy.isnan', 'math.isnan')
def np_isnan(I, v):
    if isinstance(v, PArr):
        return map1(I, v, lambda x: isnan(zr(x)), 'b')
    return isnan(zr(v))


@fn('arr.argmin', 'numpy.argmin')
def a_argmin(I, a):
    E = I.E
    a = as_arr(I, a)
    if a.ndim != 1:
        raise Unsupported('argmin')
    r, n = a.reader(), a.shape[0]
    k = E.fresh(IS, 'argmin')
    E.oblige(lt(0, n), 'argmin of a non-empty array')
    if getattr(E, 'mins', None) is not None:
        E.oblige(all_in(lambda i: Not(isnan(zr(r((i,))))), n), 'argmin of an array without missing values')
        E.trace.append(('argmin', k, n, r))
    E.assume(inrange(k, n))
    E.assume(all_in(lambda i: le(zr(r((k,))), zr(r((i,)))), n))
    E.assume(all_in(lambda i: lt(zr(r((k,))), zr(r((i,)))), k))
    return k


@fn('arr.argmax', 'numpy.argmax')
def a_argmax(I, a):
    E = I.E
    a = as_arr(I, a)
    if a.ndim != 1 or a.dt not in ('i', 'b'):
        raise Unsupported('argmax')
    r, n = a.reader(), a.shape[0]
    v = (lambda i: If(zb(r((i,))), 1, 0)) if a.dt == 'b' else (lambda i: zi(r((i,))))
    k = E.fresh(IS, 'argmax')
    E.oblige(lt(0, n), 'argmax of a non-empty array')
    E.assume(inrange(k, n))
    E.assume(all_in(lambda i: v(i) <= v(k), n))
    E.assume(all_in(lambda i: v(i) < v(k), k))
    return k


@fn('arr.tolist')
def a_tolist(I, a):
    if a.ndim != 1:
        raise Unsupported('tolist')
    it = iter_arr(I, a)
    return FN['builtins.list'](I, it)


@fn('arr.fill')
def a_fill(I, a, v):
    a.write(lambda idx: True, lambda idx: v)


@fn('numpy.array_equal')
def np_array_equal(I, a, b):
    E = I.E
    a, b = as_arr(I, a), as_arr(I, b)
    if a.ndim != b.ndim:
        return False
    ra, rb = a.reader(), b.reader()
    if a.ndim == 1:
        return band(eq(a.shape[0], b.shape[0]), all_in(lambda i: veq(ra((i,)), rb((i,))), a.shape[0]))
    raise Unsupported('array_equal')


# off-diagonal selection  M[~eye].reshape(n, -1)
@fn('mask2.reshape')
def mask2_reshape(I, m, *shape):
    E = I.E
    a, mk = m.a, m.m
    n = a.shape[0]
    x, y = bvar(IS), bvar(IS)
    offdiag = prove_eq(E, zb(mk.get(x, y)), Not(x == y), [x, y], n)
    shape = [conc(s) for s in shape]
    if not (offdiag and len(shape) == 2 and eqdim(E, shape[0], n) and eqdim(E, a.shape[1], n)):
        raise Unsupported('two-dimensional mask')
    cols = sub(n, 1)
    if not (shape[1] == -1 or eqdim(E, shape[1], cols)):
        raise Unsupported('two-dimensional mask')
    E.oblige(lt(1, n) if shape[1] == -1 else lt(0, n), 'off-diagonal entries exist')
    r = a.reader()
    return PArr.of(E, a.dt, (n, cols), lambda idx: r((idx[0], skip(idx[1], idx[0]))))


def skip(k, x):
    """the k-th index other than x"""
    c = lt(k, x)
    return k if c is True else add(k, 1) if c is False else If(c, zi(k), zi(k) + 1)


def prove_eq(E, a, b, vs, n):
    return E.entails(ForAll(vs, Implies(And(*[zb(inrange(v, n)) for v in vs]), a == b)))


# meshgrid
@fn('numpy.meshgrid')
def np_meshgrid(I, *a, indexing='xy', **kw):
    E = I.E
    if kw:
        raise Unsupported('meshgrid options')
    if len(a) == 1 and isinstance(a[0], Opaque) and a[0].kind == 'star':
        it = a[0].it
    else:
        l = PList.of(E, a)
        it = iterate(I, l)
    n = it.n
    f = lambda j: as_arr(I, it.fn(j))
    return Opaque('meshgrid', n=n, f=f, indexing=indexing)


def mesh_axes(E, g, inv=False):
    """position of axis a of the grid arrays -> which vector it runs over"""
    if g.indexing == 'ij':
        return lambda a: a
    if g.indexing == 'xy':
        return lambda a: If(zi(g.n) >= 2, If(zi(a) == 0, IntVal(1), If(zi(a) == 1, IntVal(0), zi(a))), zi(a))
    raise PyRaise('ValueError')


from .lib import ATTR  # noqa: E402
ATTR[('mesharr', 'T')] = lambda I, m: Opaque('mesharrT', g=m.g)


@fn('mesharrT.reshape')
def mesh_T_reshape(I, m, *shape):
    """np.array(np.meshgrid(*vs)).T.reshape(-1, n): the transpose reverses the axes, so C-order flattening makes the
    first grid axis vary fastest and lists the n components last: row c, column k is vs[k][digit of axis of k]"""
    E = I.E
    g = m.g
    n = g.n
    shape = [conc(s) for s in shape]
    if len(shape) != 2 or not cis(shape[0], -1) or not eqdim(E, shape[1], n):
        raise Unsupported('reshape of a grid')
    ax = mesh_axes(E, g)
    dim = lambda a: zi(g.f(ax(a)).shape[0])          # length of grid axis a
    E.oblige(lt(0, n), 'reshape of a grid with columns')
    total = mk_prod(lambda a: dim(a), n)

    def cell(idx):
        c, k = idx
        # vector k runs over grid axis ax(k) (ax is an involution)
        a = ax(k)
        digit = (zi(c) / zi(mk_prod(lambda b: dim(b), a))) % dim(a)
        v = g.f(zi(k))
        return v.get(digit)
    probe = g.f(bvar(IS))
    r = PArr.of(E, probe.dt, (total, n), cell)
    return r
