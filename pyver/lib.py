"""Models of the builtins and of the library functions the code under contract calls (trusted base of the proofs).

Each model states what the library documents; rt/conform.py compares the models' assumptions with the installed
libraries on concrete data.  Anything without a model raises Unsupported."""
import z3
from . import prover
from .terms import *
from .engine import *
from .values import *
from .interp import NOASSIGN, ClassInfo, conc_b, gt0
from .interp import unchanged

FN = {}
ATTR = {}


def fn(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f
    return deco


def kind_of(v):
    if isinstance(v, HObj):
        return v.kind
    if isinstance(v, Opaque):
        return v.kind
    if isinstance(v, (Mod, Typ)):
        return 'mod'
    if isinstance(v, LibFn):
        return 'libfn'
    if isinstance(v, PIter):
        return 'iter'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, str):
        return 'str'
    if v is None:
        return 'none'
    if isz(v) and v.sort() == Lbl:
        return 'str'
    return 'num'


def call(I, f, args, kw):
    E = I.E
    if isinstance(f, Typ) or isinstance(f, Mod):
        name = f.name
        if name in FN:
            E.lib_used.add(name)
            return FN[name](I, *args, **kw)
        if isinstance(f, Typ) and name.startswith('exc.'):
            return Opaque('exc', name=name[4:])
        raise Unsupported('library function ' + name)
    name = f.name
    if name not in FN:
        raise Unsupported('library function ' + name)
    E.lib_used.add(name)
    if f.self_ is not None:
        return FN[name](I, f.self_, *args, **kw)
    return FN[name](I, *args, **kw)


MODCONST = {
    'numpy.nan': lambda: NAN, 'numpy.NaN': lambda: NAN, 'numpy.NAN': lambda: NAN, 'math.nan': lambda: NAN,
    'numpy.int': lambda: Typ('int'), 'numpy.int32': lambda: Typ('int'), 'numpy.int64': lambda: Typ('int'), 'numpy.int_': lambda: Typ('int'),
    'numpy.float': lambda: Typ('float'), 'numpy.float64': lambda: Typ('float'), 'numpy.float_': lambda: Typ('float'),
    'numpy.bool': lambda: Typ('bool'), 'numpy.bool_': lambda: Typ('bool'), 'numpy.object': lambda: Typ('object'),
    'numpy.object_': lambda: Typ('object'), 'numpy.ndarray': lambda: Typ('ndarray'), 'pandas.DataFrame': lambda: Typ('pandas.DataFrame'),
    'networkx.DiGraph': lambda: Typ('networkx.DiGraph'), 'queue.Queue': lambda: Typ('queue.Queue'), 'numpy.newaxis': lambda: None,
    'queue.SimpleQueue': lambda: Typ('queue.Queue'), 'math.inf': lambda: Unsupp('inf'),
}


def Unsupp(x):
    raise Unsupported(x)


def attr(I, v, name):
    k = kind_of(v)
    if k == 'mod':
        full = v.name + '.' + name
        if full in MODCONST:
            return MODCONST[full]()
        return Mod(full)
    if k == 'libfn':
        return LibFn(v.name.replace('builtins.', '') + '.' + name)
    if k == 'super':
        bases = v.cls.bases
        for b in bases:
            c = I.repo.classes.get(b)
            if c is None:
                continue
            m = I.repo.method(c, name)
            if m:
                from .values import FuncRef
                return FuncRef(m[1], m[0].mod, m[0], v.self_)
        if name == '__init__':
            return PyNative(lambda E, *a, **kw: None)
        raise Unsupported('super().' + name)
    h = ATTR.get((k, name))
    if h is not None:
        return h(I, v)
    h = ATTR.get((k, '*'))
    if h is not None:
        return h(I, v, name)
    full = k + '.' + name
    if full in FN:
        return LibFn(full, v)
    raise Unsupported('attribute %s of a %s' % (name, k))


def prop(k, name):
    def deco(f):
        ATTR[(k, name)] = f
        return f
    return deco


# ------------------------------------------------------------------------- scalars

def is_num(v):
    return isinstance(v, (int, float, Fraction, bool)) or (isz(v) and v.sort() in (I, R, B))


def nonneg(E, t):
    """cheap entailment t >= 0"""
    t = conc(t)
    if isinstance(t, int):
        return t >= 0
    return quick(E, t >= 0)


def quick(E, g, to=200):
    g = zb(g)
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    from . import prover
    hs = E.hyps()
    if any(h.eq(g) for h in hs):
        return True
    k = ('quick', frozenset(h.get_id() for h in hs), g.get_id())
    if k in _q:
        return _q[k][0]
    flatten = []
    for h in hs:
        flatten += prover.flat(h)
    r = prover.z3check(prover.abstract([h for h in flatten if not prover.has_quant(h)] + [Not(g)]), to) == 'unsat' or \
        prover.z3check(prover.abstract(flatten + [Not(g)]), to) == 'unsat'
    _q[k] = (r, hs, g)
    return r


_q = {}


def eqdim(E, a, b):
    a, b = conc(a), conc(b)
    if same(a, b):
        return True
    if isconc(a) and isconc(b):
        return a == b
    d = z3.simplify(zi(a) - zi(b))
    if z3.is_int_value(d):
        return d.as_long() == 0
    return quick(E, zi(a) == zi(b)) or E.entails(zi(a) == zi(b))


def norm_index(E, i, n, what='index in range'):
    """python index -> position, with the bounds obligation"""
    i = conc(simp(zi(i))) if isz(i) else int(i)
    n = conc(n)
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise PyRaise('IndexError')
        return i if i >= 0 else i + n
    if isinstance(i, int):
        if i >= 0:
            E.oblige(zi(n) > i, what)
            return i
        E.oblige(zi(n) >= -i, what)
        return conc(simp(zi(n) + i))
    if nonneg(E, i):
        E.oblige(i < n, what)
        return i
    E.oblige(And(-zi(n) <= i, i < n), what)
    return If(i < 0, i + n, i)


def pydiv(E, a, b):
    """true division of scalars"""
    if isconc(a) and isconc(b):
        if b == 0:
            raise PyRaise('ZeroDivisionError')
        return div(a, b)
    return div(a, b)


def floordiv(E, a, b, op):
    if isconc(a) and isconc(b) and not isinstance(a, float) and not isinstance(b, float):
        if b == 0:
            raise PyRaise('ZeroDivisionError')
        return a // b if op == 'FloorDiv' else a % b
    for x in (a, b):
        if (isz(x) and x.sort() == R) or isinstance(x, (float, Fraction)):
            raise Unsupported('// or % on reals')
    a, b = zi(a), zi(b)
    if not (z3.is_int_value(b) and b.as_long() > 0):
        E.oblige(b > 0, 'divisor is positive')
    return conc(a / b if op == 'FloorDiv' else a % b)


POW = Function('POW', R, R, R)
SQRT = Function('SQRT', R, R)
LOG = Function('LOG', R, R)
LGAM = Function('LGAMMA', R, R)
CHI2PPF = Function('CHI2PPF', R, R, R)
FPPF = Function('FPPF', R, R, R, R)
RND = Function('ROUND', R, I, R)
CAT = Function('CAT', Lbl, Lbl, Lbl)        # concatenation of strings
UNCAT = Function('UNCAT', Lbl, Lbl, Lbl)    # what precedes a suffix
STR = Function('STRI', I, Lbl)


def power(a, b):
    b = conc(b)
    if isinstance(b, (float, Fraction)) and b == int(b):
        b = int(b)
    if isinstance(b, int) and 0 <= b <= 4:
        r = 1
        for _ in range(b):
            r = mul(r, a)
        return r
    if isinstance(b, (float, Fraction)) and b == Fraction(1, 2):
        return SQRT(zr(a))
    return POW(zr(a), zr(b))


def scal_bin(E, op, a, b):
    if op == 'Add':
        return add(a, b)
    if op == 'Sub':
        return sub(a, b)
    if op == 'Mult':
        return mul(a, b)
    if op == 'Div':
        return pydiv(E, a, b)
    if op in ('FloorDiv', 'Mod'):
        return floordiv(E, a, b, op)
    if op == 'Pow':
        return power(a, b)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        f = lambda x: isinstance(x, bool) or (isz(x) and x.sort() == B)
        if f(a) and f(b):
            return band(a, b) if op == 'BitAnd' else bor(a, b) if op == 'BitOr' else bnot(eq(a, b))
    raise Unsupported('operator ' + op)


def to_str(I, v):
    if isinstance(v, str):
        return v
    if isz(v) and v.sort() == Lbl:
        return v
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isz(v) and v.sort() == globals()['I_sort']:
        return STR(v)
    return Opaque('text')


I_sort = z3.IntSort()


def str_concat(I, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if getattr(a, 'kind', '') == 'strseq' or getattr(b, 'kind', '') == 'strseq':
            return Opaque('strseq', parts=strparts(a) + strparts(b))
        return Opaque('text')
    return CAT(lab(a), lab(b))


def strparts(a):
    if isinstance(a, Opaque) and a.kind == 'strseq':
        return a.parts
    return (a,)


def binop(I, op, a, b):
    E = I.E
    if isinstance(a, PArr) or isinstance(b, PArr):
        if op in ARITH_CHECK and isinstance(a, (PArr, PList)) or isinstance(b, (PArr, PList)) or True:
            from . import libnp
            return libnp.elementwise(I, op, a, b)
    if is_num(a) and is_num(b):
        return scal_bin(E, op, a, b)
    if kind_of(a) == 'str' and kind_of(b) == 'str' and op == 'Add':
        return str_concat(I, a, b)
    if op == 'Add' and (kind_of(a) in ('text', 'strseq') or kind_of(b) in ('text', 'strseq')):
        return str_concat(I, a, b)
    if isinstance(a, PList) and isinstance(b, PList) and op == 'Add':
        if a.items is not None and b.items is not None:
            return PList.of(E, a.items + b.items)
        n1, f, n2, g = a.n, a.getter(), b.n, b.getter()

        def rd(i):
            c = lt(i, n1)
            if c is True:
                return f(i)
            if c is False:
                return g(sub(i, n1))
            return merge_val(E, c, f(i), g(sub(i, n1)))
        r = PList.sym(E, add(n1, n2), rd)
        if a.items is not None and all(kind_of(x) == 'str' for x in a.items) and b.d['inv'] is not None:
            its, binv = a.items, b.d['inv']

            def first_at(x):
                for k, y in enumerate(its):
                    c = libpd.same_label(E, x, y)
                    if c is not False:
                        return IntVal(k) if c is True else If(c, IntVal(k), n1 + zi(binv(x)))
                return n1 + zi(binv(x))
            r.d['parts'] = (first_at, rd)       # position of a label, for labels that differ
        return r
    if isinstance(a, PList) and is_num(b) and op == 'Mult':
        if a.items is not None and len(a.items) == 1:
            v = a.items[0]
            if isconc(b):
                return PList.of(E, [v] * int(b))
            return PList.sym(E, b, lambda i: v)
        if a.items is not None and isconc(b):
            return PList.of(E, list(a.items) * int(b))
        raise Unsupported('list repetition')
    if is_num(a) and isinstance(b, PList) and op == 'Mult':
        return binop(I, op, b, a)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
        return a + b
    if isinstance(a, PSet) and isinstance(b, PSet):
        m = {'Sub': 'difference', 'BitOr': 'union', 'BitAnd': 'intersection'}.get(op)
        if m:
            return FN['set.' + m](I, a, b)
    if kind_of(a) == 'text' or kind_of(b) == 'text':
        return Opaque('text')
    if isinstance(a, Opaque) and a.kind == 'edgeset' and isinstance(b, Opaque) and b.kind == 'edgeset' and op in ('Sub', 'BitOr', 'BitAnd'):
        comb = {'Sub': lambda p, q: band(p, bnot(q)), 'BitOr': bor, 'BitAnd': band}[op]
        return Opaque('edgeset', has=lambda e: comb(a.has(e), b.has(e)))
    raise Unsupported('%s on %s and %s' % (op, kind_of(a), kind_of(b)))


ARITH_CHECK = ()


def unop(I, op, v):
    if isinstance(v, PArr):
        from . import libnp
        return libnp.map1(I, v, (lambda x: bnot(zb(x)) if not isinstance(x, bool) else not x) if op == 'Invert' else (lambda x: sub(0, x)) if op == 'USub' else (lambda x: x),
                          'b' if op == 'Invert' else v.dt)
    if is_num(v):
        if op == 'USub':
            return sub(0, v)
        if op == 'UAdd':
            return v
    raise Unsupported('unary ' + op)


CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}


def compare(I, op, a, b):
    E = I.E
    if op == 'Is':
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, HObj) and isinstance(b, HObj):
            return a is b
        if isinstance(a, (Typ, ClassInfo, Mod)) or isinstance(b, (Typ, ClassInfo, Mod)):
            return a is b or (type(a) is type(b) and a.name == b.name)
        raise Unsupported('is')
    if op == 'IsNot':
        return bnot(compare(I, 'Is', a, b))
    if op in ('In', 'NotIn'):
        r = contains(I, b, a)
        return conc_b(bnot(r)) if op == 'NotIn' else r
    if isinstance(a, PArr) or isinstance(b, PArr):
        from . import libnp
        return libnp.elementwise(I, op, a, b)
    if kind_of(a) in PDKINDS or kind_of(b) in PDKINDS:
        from . import libpd
        return libpd.compare(I, op, a, b)
    if op in ('Eq', 'NotEq'):
        if isinstance(a, PInst) and isinstance(a.cls, ClassInfo):
            m = I.repo.method(a.cls, '__eq__')
            if m:
                r = I.truth(I.call_function(FuncRef(m[1], m[0].mod, m[0], a), [b], {}))
                return conc_b(bnot(r)) if op == 'NotEq' else r
            r = a is b
        elif kind_of(a) == 'text' or kind_of(b) == 'text':
            raise Unsupported('== on text')
        elif E.nanaware and is_num(a) and is_num(b) and (_isreal(a) or _isreal(b)):
            r = band(bnot(isnan(zr(a))), bnot(isnan(zr(b))), eq(a, b))
        else:
            r = veq(a, b)
        return conc_b(bnot(r)) if op == 'NotEq' else r
    if op in CMP:
        if is_num(a) and is_num(b):
            r = rel(CMP[op], a, b)
            if E.nanaware and (_isreal(a) or _isreal(b)):
                r = band(bnot(isnan(zr(a))), bnot(isnan(zr(b))), r)
            return r
        if isinstance(a, PSet) and isinstance(b, PSet) and op in ('LtE', 'GtE'):
            if op == 'GtE':
                a, b = b, a
            f, g = a.membership(), b.membership()
            return forall(lambda x: imp(f(x), g(x)), Lbl)
        if a is None or b is None:
            raise PyRaise('TypeError')
    raise Unsupported('%s on %s and %s' % (op, kind_of(a), kind_of(b)))


PDKINDS = ('dframe', 'series')


def _isreal(v):
    return isinstance(v, (float, Fraction)) or (isz(v) and v.sort() == R)


def contains(I, c, x):
    E = I.E
    if isinstance(c, PSet):
        return conc_b(c.member(x))
    if isinstance(c, tuple):
        return conc_b(bor(*[veq(x, y) for y in c]))
    if isinstance(c, PList):
        return list_contains(E, c, x)
    if isinstance(c, PDict):
        return dict_has(I, c, x)
    if isinstance(c, PGraph):
        return conc_b(c.node(x))
    if isinstance(c, Opaque) and c.kind == 'edgeset':
        return conc_b(c.has(x))
    if isinstance(c, PArr):
        raise Unsupported('in on an array')
    if isinstance(c, Opaque) and c.kind == 'graphnodes':
        return conc_b(c.g.node(x))
    if isinstance(c, Opaque) and c.kind == 'dictkeys':
        return dict_has(I, c.of, x)
    it = I.iter(c)
    if isinstance(it.n, int):
        return conc_b(bor(*[veq(x, it.fn(IntVal(k))) for k in range(it.n)]))
    return mk_any(lambda i: veq(it.fn(i), x), it.n)


def list_contains(E, l, x):
    if l.items is not None:
        return conc_b(bor(*[veq(x, y) for y in l.items]))
    if l.d['inv'] is not None:
        p = l.d['inv'](x)
        return band(inrange(p, l.n), eq(l.get(p), x))
    if l.pairset() is not None:
        return conc_b(l.pairset()(x))
    g = l.getter()
    return mk_any(lambda i: veq(g(i), x), l.n)


def truth(I, v):
    if isinstance(v, Opaque) and v.kind == 'exc':
        return True
    if isinstance(v, Opaque) and v.kind in ('dframe',):
        raise PyRaise('ValueError')
    if isinstance(v, PGraph):
        return conc_b(gt0(Card(v.d['nodes'])))
    if isinstance(v, Opaque) and v.kind == 'edgeset':
        x, y = bvar(Lbl, 'l'), bvar(Lbl, 'l')
        return z3.Exists([x, y], zb(v.has((x, y))))
    raise Unsupported('truth of a ' + kind_of(v))


def inplace(I, op, cur, thunk):
    v = thunk()
    if isinstance(cur, PArr):
        from . import libnp
        r = libnp.elementwise(I, op, cur, v)
        if r.ndim != cur.ndim:
            raise Unsupported('in-place broadcast')
        if cur.dt == 'i' and r.dt == 'r':
            raise PyRaise('UFuncTypeError')
        rd = r.reader()
        cur.write(lambda idx: True, lambda idx: rd(tuple(idx)))
        return NOASSIGN
    if isinstance(cur, PList) and op == 'Add':
        list_extend(I, cur, v)
        return NOASSIGN
    if isinstance(cur, PSet):
        m = {'Sub': 'difference_update', 'BitOr': 'update', 'BitAnd': 'intersection_update'}.get(op)
        if m:
            FN['set.' + m](I, cur, v)
            return NOASSIGN
    return binop(I, op, cur, v)


# ------------------------------------------------------------------------- iteration

def iterate(I, v):
    E = I.E
    if isinstance(v, PIter):
        return v
    if isinstance(v, PList):
        it = PIter(v.n, v.getter())
        it.inv = v.d['inv']
        it.src = v
        it.filt = v.filt()
        if v.pairset() is not None:
            it.has = v.pairset()
        return it
    if isinstance(v, tuple):
        return PIter(len(v), tuple_reader(E, v))
    if isinstance(v, PArr):
        from . import libnp
        return libnp.iter_arr(I, v)
    if isinstance(v, PSet):
        l = enum_set(I, v)
        return iterate(I, l)
    if isinstance(v, PDict):
        if v.d['entries'] is not None:
            ks = [k for k, _ in v.d['entries']]
            return PIter(len(ks), tuple_reader(E, tuple(ks)))
        if v.d['keys'] is None:
            raise Unsupported('iteration over a dict without key order')
        return PIter(v.d['keys'][0], v.d['keys'][1])
    if isinstance(v, Opaque):
        if v.kind == 'dictkeys':
            return iterate(I, v.of)
        if v.kind == 'dictitems':
            it = iterate(I, v.of)
            return PIter(it.n, lambda i: (it.fn(i), dict_get(I, v.of, it.fn(i))))
        if v.kind == 'dictvalues':
            it = iterate(I, v.of)
            return PIter(it.n, lambda i: dict_get(I, v.of, it.fn(i)))
        if v.kind == 'edgeset':
            return edge_iter(I, v)
        if v.kind == 'graphnodes':
            return iterate(I, enum_set(I, PSet.arr(E, v.g.d['nodes'])))
        if v.kind in ITER:
            return ITER[v.kind](I, v)
    if isinstance(v, PGraph):
        return iterate(I, enum_set(I, PSet.arr(E, v.d['nodes'])))
    raise Unsupported('iteration over a ' + kind_of(v))


ITER = {}


def tuple_reader(E, items):
    def rd(i):
        i = conc(simp(i)) if isz(i) else i
        if isinstance(i, int):
            return items[i]
        if not items:
            return POISON
        v = items[-1]
        for k in range(len(items) - 2, -1, -1):
            v = merge_val(E, z(i) == k, items[k], v)
        return v
    return rd


def enum_set(I, s):
    """the elements of a set of labels in some order"""
    E = I.E
    if s.d['items'] is not None:
        if all_distinct_conc(s.d['items']):
            return PList.of(E, s.d['items'])
    a = s.array()
    n = s.d['card'] if s.d['card'] is not None else Card(a)
    ord_ = E.freshfn('ord', IntSort(), Lbl)
    pos = E.freshfn('pos', Lbl, IntSort())
    E.assume(zi(n) >= 0)
    q, x = bvar(IntSort(), 'q'), bvar(Lbl, 'l')
    E.assume(ForAll([q], Implies(zb(inrange(q, n)), And(zb(sel(a, ord_(q))), pos(ord_(q)) == q)), patterns=[ord_(q)]))
    E.assume(ForAll([x], Implies(zb(sel(a, x)), And(zb(inrange(pos(x), n)), ord_(pos(x)) == x)), patterns=[pos(x)]))
    E.assume(ForAll([x], Implies(Not(zb(sel(a, x))), pos(x) == -1), patterns=[pos(x)]))
    if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
        E.assume(ForAll([x], Implies(Select(a, x), And(zb(inrange(pos(x), n)), ord_(pos(x)) == x)), patterns=[Select(a, x)]))
    for w in E.hints:
        E.assume(Implies(zb(sel(a, w)), And(zb(inrange(pos(w), n)), ord_(pos(w)) == w)))
    m = s.membership()
    l = PList.sym(E, n, ord_, inv=pos)
    l.d['isset'] = a
    return l


def all_distinct_conc(items):
    return all(isinstance(x, (str, int)) for x in items) and len(set(items)) == len(items)


def edge_iter(I, v):
    """edges of a graph (or a set of pairs) in some order"""
    E = I.E
    n = E.fresh(IntSort(), 'nedges')
    E.assume(n >= 0)
    t = E.freshfn('etail', IntSort(), Lbl)
    h = E.freshfn('ehead', IntSort(), Lbl)
    p = E.freshfn('epos', Lbl, Lbl, IntSort())
    q, x, y = bvar(IntSort(), 'q'), bvar(Lbl, 'l'), bvar(Lbl, 'l')
    E.assume(ForAll([q], Implies(zb(inrange(q, n)), And(zb(v.has((t(q), h(q)))), p(t(q), h(q)) == q)), patterns=[t(q)]))
    E.assume(ForAll([q], Implies(zb(inrange(q, n)), And(zb(v.has((t(q), h(q)))), p(t(q), h(q)) == q)), patterns=[h(q)]))
    E.assume(ForAll([x, y], Implies(zb(v.has((x, y))), And(zb(inrange(p(x, y), n)), t(p(x, y)) == x, h(p(x, y)) == y)), patterns=[p(x, y)]))
    it = PIter(n, lambda i: (t(i), h(i)))
    it.inv = lambda e: p(lab(e[0]), lab(e[1]))
    it.has = v.has
    return it


# ------------------------------------------------------------------------- subscripts

def getitem(I, v, ix):
    E = I.E
    if isinstance(v, PArr):
        from . import libnp
        return libnp.getitem(I, v, ix)
    if isinstance(v, PList):
        if isinstance(ix, Slice):
            return list_slice(I, v, ix)
        if not is_num(ix):
            raise PyRaise('TypeError')
        i = norm_index(E, ix, v.n)
        return v.get(z(i) if not isinstance(i, int) else i)
    if isinstance(v, tuple):
        if isinstance(ix, Slice):
            g = lambda x: None if x is None else int(conc(x))
            return v[slice(g(ix.lo), g(ix.hi), g(ix.step))]
        i = conc(ix)
        if isinstance(i, int):
            if not -len(v) <= i < len(v):
                raise PyRaise('IndexError')
            return v[i]
        i = norm_index(E, ix, len(v))
        return tuple_reader(E, v)(i)
    if isinstance(v, PDict):
        h = dict_has(I, v, ix)
        if h is not True:
            if h is False:
                raise PyRaise('KeyError')
            if not quick(E, h):
                if not E.branch(zb(h)):
                    raise PyRaise('KeyError')
        return dict_get(I, v, ix)
    if isinstance(v, Opaque) and v.kind == 'gridlist':
        return getitem(I, grid_seq(I, v), ix)
    if kind_of(v) in GETITEM:
        return GETITEM[kind_of(v)](I, v, ix)
    if isinstance(v, PInst):
        m = I.repo.method(v.cls, '__getitem__') if isinstance(v.cls, ClassInfo) else None
        if m:
            return I.call_function(FuncRef(m[1], m[0].mod, m[0], v), [ix], {})
    if kind_of(v) == 'num':
        raise PyRaise('TypeError')
    if isinstance(v, str) and isinstance(ix, int):
        return v[ix]
    raise Unsupported('subscript of a ' + kind_of(v))


GETITEM = {}
SETITEM = {}


def setitem(I, v, ix, val):
    E = I.E
    if isinstance(v, PArr):
        from . import libnp
        return libnp.setitem(I, v, ix, val)
    if isinstance(v, PList):
        if isinstance(ix, Slice):
            if ix.lo is None and ix.hi is None and ix.step is None:
                it = iterate(I, val)
                if isinstance(it.n, int):
                    v.set(items=tuple(it.fn(IntVal(k)) for k in range(it.n)), inv=None, log=v.d['log'] + (('set',),))
                else:
                    v.setto(it.n, it.fn)
                return
            raise Unsupported('slice assignment')
        i = norm_index(E, ix, v.n)
        if v.items is not None and isinstance(i, int):
            items = list(v.items)
            items[i] = val
            v.set(items=tuple(items), inv=None, log=v.d['log'] + (('put', i, val),))
            return
        n, g = v.n, v.getter()

        def rd(k):
            c = eq(k, i)
            return merge_val(E, c, val, g(k)) if not isinstance(c, bool) else (val if c else g(k))
        v.set(items=None, n=n, fn=rd, inv=None, log=v.d['log'] + (('put', i, val),))
        return
    if isinstance(v, PDict):
        return dict_set(I, v, ix, val)
    if kind_of(v) in SETITEM:
        return SETITEM[kind_of(v)](I, v, ix, val)
    raise Unsupported('subscript assignment on a ' + kind_of(v))


def delitem(I, v, ix):
    E = I.E
    if isinstance(v, PList):
        if isinstance(ix, Slice):
            if ix.lo is None and ix.hi is None and ix.step is None:
                v.set(items=(), n=0, fn=None, inv=None, log=v.d['log'] + (('clear',),))
                return
            raise Unsupported('del slice')
        i = norm_index(E, ix, v.n)
        list_del(I, v, i)
        return
    if isinstance(v, PDict) and v.d['entries'] is not None and isinstance(ix, str) and all(isinstance(k, str) for k, _ in v.d['entries']):
        es = [(k, x) for k, x in v.d['entries'] if k != ix]
        if len(es) == len(v.d['entries']):
            raise PyRaise('KeyError')
        v.set(entries=tuple(es), log=v.d['log'] + (('del', ix),))
        return
    raise Unsupported('del on a ' + kind_of(v))


def list_del(IP, v, i):
    E = IP.E
    if v.items is not None and isinstance(i, int):
        v.set(items=v.items[:i] + v.items[i + 1:], inv=None, log=v.d['log'] + (('del', i),))
        return
    n, g, inv, fl = v.n, v.getter(), v.d['inv'], v.filt()
    i = conc(z3.simplify(i)) if isz(i) else i
    if cis(i, 0) and fl is None:
        x = g(IntVal(0))
        if isz(x) and x.sort() == Lbl:
            # a name of its own: terms with an index of the form k + 1 are no good as patterns
            h = E.freshfn('rest', I, Lbl)
            q = bvar(I, 'q')
            E.assume(ForAll([q], h(q) == lab(g(add(q, 1))), patterns=[h(q)]))
            t = lab(g(q))
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.arg(0).eq(q):
                E.assume(ForAll([q], h(q - 1) == t, patterns=[t]))
            v.set(items=None, n=sub(n, 1), fn=lambda k: h(zi(k)), inv=None if inv is None else (lambda x: inv(x) - 1), log=v.d['log'] + (('del', 0),))
            return
        v.set(items=None, n=sub(n, 1), fn=lambda k: g(add(k, 1)), inv=None if inv is None else (lambda x: inv(x) - 1), log=v.d['log'] + (('del', 0),))
        return
    x0 = g(i) if inv is not None else None
    # if i < k keep; the removed label maps to -1
    def inv2(x):
        return If(zb(eq(x, x0)), IntVal(-1), If(inv(x) < z(i), inv(x), If(inv(x) < zi(n), inv(x) - 1, inv(x))))

    def rd(k):
        c = lt(k, i)
        if isinstance(c, bool):
            return g(k) if c else g(add(k, 1))
        return merge_val(E, c, g(k), g(add(k, 1)))
    v.set(items=None, n=sub(n, 1), fn=rd, inv=inv2 if inv is not None else None, log=v.d['log'] + (('del', i),))
    if n is not None and fl is None and v.items is None:
        v.setfilt(n, lambda k: z(k) != zi(i), g)


def clampidx(E, x, n, default):
    if x is None:
        return default
    x = conc(simp(zi(x))) if isz(x) else x
    if isinstance(x, int) and isinstance(n, int):
        if x < 0:
            x = max(0, x + n)
        return min(x, n)
    if isinstance(x, int):
        if x >= 0:
            if quick(E, zi(n) >= x):
                return x
            return If(zi(n) < x, zi(n), IntVal(x))
        if quick(E, zi(n) >= -x):
            return conc(simp(zi(n) + x))
        return If(zi(n) < -x, IntVal(0), zi(n) + x)
    if nonneg(E, x):
        if quick(E, x <= n):
            return x
        return If(x > n, zi(n), x)
    y = If(x < 0, If(x + n < 0, IntVal(0), x + n), x)
    return If(y > n, zi(n), y)


def slice_bounds(E, s, n):
    if s.step is not None and not cis(s.step, 1):
        raise Unsupported('slice step')
    lo = clampidx(E, s.lo, n, 0)
    hi = clampidx(E, s.hi, n, n)
    m = sub(hi, lo)
    if isinstance(m, int):
        m = max(m, 0)
    elif not (quick(E, zi(m) >= 0)):
        m = If(m < 0, IntVal(0), m)
    return lo, conc(simp(z(m))) if isz(m) else m


def list_slice(I, v, s):
    E = I.E
    if s.step is not None and conc(s.step) == -1 and s.lo is None and s.hi is None:
        n, g = v.symbolic()
        if v.items is not None:
            return PList.of(E, v.items[::-1])
        return PList.sym(E, n, lambda i: g(sub(sub(n, 1), i)))
    if v.items is not None and all(x is None or isinstance(conc(x), int) for x in (s.lo, s.hi, s.step)):
        return PList.of(E, v.items[slice(*[None if x is None else conc(x) for x in (s.lo, s.hi, s.step)])])
    lo, m = slice_bounds(E, s, v.n)
    g = v.getter()
    if same(lo, 0) and same(m, v.n):
        return PList.sym(E, v.n, g, inv=v.d['inv'])
    inv = None
    if v.d['inv'] is not None:
        src = v.d['inv']
        inv = lambda x: src(x) - zi(lo)
    return PList.sym(E, m, lambda i: g(add(i, lo)), inv=inv)


# ------------------------------------------------------------------------- dicts

def dict_has(I, d, k):
    if d.d['entries'] is not None:
        return conc_b(bor(*[veq(k, x) for x, _ in d.d['entries']]))
    return conc_b(d.d['has'](k))


def dict_get(I, d, k):
    E = I.E
    es = d.d['entries']
    if es is not None:
        v = None
        for x, y in reversed(es):
            c = veq(k, x)
            if c is True:
                v = y
            elif c is False:
                continue
            else:
                v = y if v is None else merge_val(E, c, y, v)
        if v is None:
            raise PyRaise('KeyError')
        return v
    return d.d['get'](k)


def dict_set(I, d, k, val):
    E = I.E
    es = d.d['entries']
    if es is not None:
        out = []
        hit = False
        ok = True
        for x, y in es:
            c = veq(k, x)
            if c is True:
                out.append((x, val))
                hit = True
            elif c is False:
                out.append((x, y))
            else:
                ok = False
                break
        if ok:
            if not hit:
                out.append((k, val))
            d.set(entries=tuple(out), log=d.d['log'] + (('set', k, val),))
            return
        raise Unsupported('dict with possibly equal keys')
    has, get = d.d['has'], d.d['get']

    def h2(x):
        return bor(veq(x, k), has(x))

    def g2(x):
        c = veq(x, k)
        return val if c is True else get(x) if c is False else merge_val(E, c, val, get(x))
    d.set(has=h2, get=g2, keys=None, log=d.d['log'] + (('set', k, val),))


def dict_from_pairs(I, l):
    """{k: v for ...} from a list of pairs"""
    E = I.E
    if l.items is not None:
        d = PDict.of(E)
        for k, v in l.items:
            dict_set(I, d, k, v)
        d.d['log'] = ()
        return d
    n, g = l.symbolic()
    # position of the last pair with the key
    probe = g(bvar(IntSort()))
    if not (isinstance(probe, tuple) and kind_of(probe[0]) == 'str'):
        raise Unsupported('dict keys')
    inv = getattr(l, 'keyinv', None)
    pos = E.freshfn('kpos', Lbl, IntSort())
    q, x = bvar(IntSort(), 'q'), bvar(Lbl, 'l')
    # the last occurrence wins
    E.assume(ForAll([q], Implies(zb(inrange(q, n)), And(pos(g(q)[0]) >= q, pos(g(q)[0]) < n, g(pos(g(q)[0]))[0] == g(q)[0])), patterns=[g(q)[0]]))
    has = lambda k: band(inrange(pos(lab(k)), n), eq(g(pos(lab(k)))[0], lab(k)))
    return PDict.sym(E, has, lambda k: g(pos(lab(k)))[1], keys=None)


def grid_list(I, n, V0):
    """[f(i, j) for i in range(n) for j in range(m(i)) if P(i, j)]"""
    E = I.E
    probe = V0(bvar(IntSort()))
    return Opaque('gridlist', n=n, row=V0)


def grid_seq(I, v):
    """the pairs kept by a comprehension over two ranges, in some order: an enumeration without repetition of the (i, j) kept"""
    E = I.E
    if getattr(v, 'seq', None) is not None:
        return v.seq
    i, j, q = bvar(IntSort(), 'i'), bvar(IntSort(), 'j'), bvar(IntSort(), 'q')
    _, m, P, V = v.row(i)[:4]
    if isz(m) and any(t.eq(i) for t in subterms(m)):
        raise Unsupported('inner range depends on the outer one')
    M = E.fresh(IntSort(), 'npairs')
    ri, rj, rp = E.freshfn('row', IntSort(), IntSort()), E.freshfn('col', IntSort(), IntSort()), E.freshfn('rank', IntSort(), IntSort(), IntSort())

    def keep(a, b):
        r = v.row(a)
        return zb(band(inrange(a, v.n), inrange(b, m), r[2](b) if r[2] is not None else True))
    E.assume(M >= 0)
    for pat in (ri(q), rj(q)):
        E.assume(ForAll([q], Implies(zb(inrange(q, M)), And(keep(ri(q), rj(q)), rp(ri(q), rj(q)) == q)), patterns=[pat]))
    E.assume(ForAll([i, j], Implies(keep(i, j), And(0 <= rp(i, j), rp(i, j) < M, ri(rp(i, j)) == i, rj(rp(i, j)) == j)), patterns=[rp(i, j)]))
    # how many (lemma 'pairs of a square'): all of them, or all but the diagonal
    square = lambda c: ForAll([i, j], Implies(And(0 <= i, i < zi(v.n), 0 <= j, j < zi(m)), keep(i, j) == c))
    E.assume(Implies(And(zi(v.n) >= 0, zi(m) == zi(v.n), square(i != j)), M == zi(v.n) * (zi(v.n) - 1)))
    E.assume(Implies(And(zi(v.n) >= 0, zi(m) >= 0, square(BoolVal(True))), M == zi(v.n) * zi(m)))

    def at(k):
        k = zi(k)
        return v.row(ri(k))[3](rj(k))
    v.seq = PList.sym(E, M, at)
    v.seq_rank = rp
    return v.seq


def draw(I, kind, param, sort):
    """a random draw of its own for every iteration it is made in"""
    E = I.E
    if getattr(E, 'draws', None) is None:
        raise Unsupported('random draw')
    t = E.fresh(sort, kind)
    if not any(d[2] is not None and d[2].eq(t) for d in E.draws):
        E.draws.append((kind, tuple(E.gvars), t, param))
    return t


@fn('numpy.random.binomial')
def nr_binomial(I, n, p, **kw):
    if kw or not cis(n, 1):
        raise Unsupported('binomial')
    I.E.oblige(band(le(0, p), le(p, 1)), 'the probability is between 0 and 1')
    t = draw(I, 'binomial', p, IntSort())
    I.E.assume(Or(t == 0, t == 1))
    return t


@fn('numpy.random.random_sample', 'numpy.random.rand', 'numpy.random.random', 'random.random')
def nr_uniform(I, *a, **kw):
    if a or kw:
        return nr_uniform_arr(I, a, kw)
    t = draw(I, 'uniform', None, RealSort())
    I.E.assume(And(0 <= t, t < 1))
    return t


WAIT = Function('IS_EXPONENTIAL', RealSort(), RealSort(), B)      # a draw and the scale it was drawn with


@fn('numpy.random.exponential')
def nr_exponential(I, scale=1, size=None):
    E = I.E
    if size is not None:
        raise Unsupported('array of waiting times')
    E.oblige(gt0(zr(scale)), 'the scale is positive')
    t = draw(I, 'exponential', scale, RealSort())
    E.assume(And(t > 0, WAIT(t, zr(scale))))
    return t


@fn('random.expovariate')
def r_expovariate(I, lambd=1):
    return nr_exponential(I, binop(I, 'Div', 1, lambd))


@fn('numpy.random.multinomial')
def nr_multinomial(I, n, pvals, size=None):
    """one trial: exactly one outcome, of positive probability, is counted once"""
    from . import libnp
    E = I.E
    p = libnp.as_arr(I, pvals)
    if not cis(n, 1) or p.ndim != 1 or size is not None and not cis(size, 1):
        raise Unsupported('multinomial')
    m, r = p.shape[0], p.reader()
    w = draw(I, 'multinomial', None, IntSort())
    E.trace.append(('multinomial', w, m, r))
    t = z3.simplify(zr(r((w,))))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV:
        E.assume(t.arg(1) != 0)         # probabilities that are not numbers are refused
    E.assume(And(zb(inrange(w, m)), zr(r((w,))) > 0))
    one = lambda j: ite(eq(j, w), 1, 0)
    if size is None:
        return PArr.of(E, 'i', (m,), lambda ix: one(ix[0]))
    return PArr.of(E, 'i', (1, m), lambda ix: one(ix[1]))


def nr_uniform_arr(I, a, kw):
    """an array of draws; draws are positive (a zero has probability zero), so that the sum of a row exceeds each of its entries"""
    from . import libnp
    E = I.E
    if kw.get('size') is not None:
        a = (kw.pop('size'),)
    if kw or getattr(E, 'draws', None) is None:
        raise Unsupported('array of random numbers')
    shape = tuple(libnp.shape_of(I, a[0]) if len(a) == 1 and isinstance(a[0], tuple) else a)
    f = E.freshfn('uniforms', *([IntSort()] * len(shape) + [RealSort()]))
    vs = [bvar(IntSort(), 'i') for _ in shape]
    t = f(*vs)
    rng = And(*[zb(inrange(v, n)) for v, n in zip(vs, shape)])
    gv = list(E.gvars)
    E.assume(ForAll(vs, And(0 < t, t < 1), patterns=[t]))
    lead, j = vs[:-1], vs[-1]

    def exceeds(lead, vs):
        s = mk_sum(lambda q: f(*(lead + [zi(q)])), shape[-1])
        t = f(*(lead + [j]))
        E.assume(ForAll(vs, Implies(And(rng, zi(shape[-1]) >= 2), zr(s) > t), patterns=[t]))
    if len(lead) == 1 and shape[0] == 1:
        rng = zb(inrange(j, shape[-1]))
        exceeds([IntVal(0)], [j])
    else:
        exceeds(lead, vs)
    E.draws.append(('uniforms', tuple(gv), None, None))
    return PArr.of(E, 'r', shape, lambda ix: f(*[zi(i) for i in ix]))


@fn('numpy.random.uniform', 'random.uniform')
def nr_range(I, a=0, b=1, size=None):
    if size is not None:
        raise Unsupported('array of random numbers')
    t = draw(I, 'uniform', None, RealSort())
    I.E.assume(And(0 <= t, t < 1))
    return add(a, mul(sub(b, a), t))


@fn('random.shuffle', 'numpy.random.shuffle')
def r_shuffle(I, l):
    E = I.E
    if isinstance(l, Opaque) and l.kind == 'gridlist':
        if getattr(l, 'seq', None) is None:
            return              # its order is not specified anyway
        raise Unsupported('shuffle of a list in use')
    if not isinstance(l, PList):
        raise Unsupported('shuffle')
    n, g = l.symbolic()
    f, _ = permutation(E, n)
    inv = l.d.get('inv')
    l.setto(n, lambda k: g(f(k)))


def permutation(E, n):
    f, h = E.freshfn('perm', IntSort(), IntSort()), E.freshfn('perm_inv', IntSort(), IntSort())
    q = bvar(IntSort(), 'q')
    for a, b in ((f, h), (h, f)):
        E.assume(ForAll([q], Implies(zb(inrange(q, n)), And(0 <= a(q), a(q) < zi(n), b(a(q)) == q)), patterns=[a(q)]))
    return f, h


def list_extend(I, l, v):
    E = I.E
    it = iterate(I, v)
    if isinstance(it.n, int):
        for k in range(it.n):
            l.append(it.fn(IntVal(k)))
        return
    n, g = l.symbolic()

    def rd(i):
        c = lt(i, n)
        if isinstance(c, bool):
            return g(i) if c else it.fn(sub(i, n))
        return merge_val(E, c, g(i), it.fn(sub(i, n)))
    l.setto(add(n, it.n), rd)


def enter(I, v):
    if isinstance(v, Opaque) and v.kind in ('pool', 'file'):
        return v
    raise Unsupported('with')


def setattr_(I, o, name, v):
    h = SETATTR.get((kind_of(o), name))
    if h:
        return h(I, o, v)
    raise Unsupported('attribute assignment on a ' + kind_of(o))


SETATTR = {}


# ------------------------------------------------------------------------- builtins

@fn('builtins.len')
def b_len(I, v):
    E = I.E
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, PList):
        return v.n
    if isinstance(v, PArr):
        if not v.shape:
            raise PyRaise('TypeError')
        return v.shape[0]
    if isinstance(v, PSet):
        if v.d['items'] is not None and (len(v.d['items']) <= 1 or all_distinct_conc(v.d['items'])):
            return len(v.d['items'])
        if v.d['card'] is not None:
            return v.d['card']
        c = Card(v.array())
        E.assume(c >= 0)
        return c
    if isinstance(v, PDict):
        if v.d['entries'] is not None:
            return len(v.d['entries'])
        if v.d['keys'] is not None:
            return v.d['keys'][0]
    if isinstance(v, PGraph):
        return Card(v.d['nodes'])
    if isinstance(v, Opaque) and v.kind in LEN:
        return LEN[v.kind](I, v)
    if isinstance(v, PInst) and isinstance(v.cls, ClassInfo):
        m = I.repo.method(v.cls, '__len__')
        if m:
            return I.call_function(FuncRef(m[1], m[0].mod, m[0], v), [], {})
    if kind_of(v) == "dframe":
        return v.d["n"]
    if kind_of(v) == "series":
        return v.n
    raise Unsupported("len of a " + kind_of(v))


LEN = {}


def range_iter(E, lo, hi, step=1):
    lo, hi, step = conc(lo), conc(hi), conc(step)
    for x in (lo, hi):
        if not is_num(x) or _isreal(x):
            if _isreal(x):
                raise PyRaise('TypeError')
            raise Unsupported('range argument')
    if isinstance(lo, int) and isinstance(hi, int) and isinstance(step, int):
        r = range(int(lo), int(hi), step)
        return PIter(len(r), lambda i: add(int(lo), mul(conc(simp(i)) if isz(i) else i, step)))
    if step != 1:
        raise Unsupported('range step')
    n = sub(hi, lo)
    if not nonneg(E, n):
        n = If(zi(n) < 0, IntVal(0), zi(n))
    return PIter(n, lambda i: add(lo, i))


@fn('builtins.range')
def b_range(I, *a):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    it = range_iter(I.E, lo, hi, st)
    it.isrange = True
    it.inv = (lambda x: sub(x, lo)) if conc(st) == 1 else None
    return it


@fn('builtins.enumerate')
def b_enum(I, v, start=0):
    it = iterate(I, v)
    return PIter(it.n, lambda i: (add(i, start), it.fn(i)))


@fn('builtins.zip')
def b_zip(I, *vs):
    its = [iterate(I, v) for v in vs]
    n = its[0].n
    for t in its[1:]:
        if eqdim(I.E, n, t.n):
            continue
        n = min(n, t.n) if isinstance(n, int) and isinstance(t.n, int) else If(zi(n) <= zi(t.n), zi(n), zi(t.n))
    return PIter(n, lambda i: tuple(t.fn(i) for t in its))


@fn('builtins.reversed')
def b_reversed(I, v):
    it = iterate(I, v)
    return PIter(it.n, lambda i: it.fn(sub(sub(it.n, 1), i)))


@fn('builtins.list')
def b_list(I, *a):
    E = I.E
    if not a:
        return PList.of(E, ())
    v = a[0]
    if isinstance(v, Opaque) and v.kind == 'gridlist':
        return v
    if isinstance(v, Opaque) and v.kind == 'edgeset':
        return Opaque('edgeset', has=v.has)
    it = iterate(I, v)
    if isinstance(it.n, int) and it.n <= 64:
        return PList.of(E, [it.fn(IntVal(k)) for k in range(it.n)])
    return PList.sym(E, it.n, it.fn, inv=getattr(it, 'inv', None))


@fn('builtins.tuple')
def b_tuple(I, *a):
    if not a:
        return ()
    if isinstance(a[0], tuple):
        return a[0]
    it = iterate(I, a[0])
    if isinstance(it.n, int):
        return tuple(it.fn(IntVal(k)) for k in range(it.n))
    if hasattr(it, 'pair'):
        return tuple(it.pair)
    raise Unsupported('tuple of symbolic length')


@fn('builtins.set', 'builtins.frozenset')
def b_set(I, *a):
    E = I.E
    if not a:
        return PSet.of(E, ())
    v = a[0]
    if isinstance(v, PSet):
        return PSet(E, a=v.d['a'], items=v.d['items'], has=v.d['has'], log=(), card=v.d['card'])
    if isinstance(v, Opaque) and v.kind == 'edgeset':
        return Opaque('edgeset', has=v.has)
    if isinstance(v, Opaque) and v.kind == 'gridlist':
        return Opaque('edgeset', has=gridlist_has(I, v), wit=(v.n, lambda i, e: grid_row_any(v, i, e)))
    if isinstance(v, Opaque) and v.kind == 'chain':
        return Opaque('edgeset', has=v.has, wit=getattr(v, 'wit', None))
    it = iterate(I, v)
    if isinstance(it.n, int) and it.n <= 64:
        items = [it.fn(IntVal(k)) for k in range(it.n)]
        if all(kind_of(x) == 'str' for x in items):
            a_ = z3.K(Lbl, BoolVal(False))
            if all(isinstance(x, str) for x in items) or len(items) <= 0:
                ded = list(dict.fromkeys(items))
                return PSet.of(E, ded)
            for x in items:
                a_ = z3.Store(a_, lab(x), BoolVal(True))
            return PSet.arr(E, a_)
        if all(isinstance(x, tuple) for x in items):
            return Opaque('edgeset', has=lambda e: bor(*[veq(tuple(e), x) for x in items]))
        raise Unsupported('set of non labels')
    if hasattr(it, 'has'):
        return Opaque('edgeset', has=it.has)
    probe = it.fn(bvar(IntSort()))
    if isinstance(probe, tuple):
        inv = getattr(it, 'inv', None)
        n, f = it.n, it.fn
        return Opaque('edgeset', has=lambda e: mk_any(lambda i: veq(f(i), tuple(e)), n))
    if kind_of(probe) != 'str':
        raise Unsupported('set of non labels')
    inv = getattr(it, 'inv', None)
    n, f = it.n, it.fn
    if inv is not None:
        x = bvar(Lbl, 'l')
        mem = lambda y: zb(band(inrange(inv(y), n), eq(f(inv(y)), y)))
        src = getattr(it, 'src', None)
        if src is not None and src.d.get('isset') is not None:
            return PSet.arr(E, src.d['isset'], card=n)
        # a named set with both directions
        S = E.fresh(SetL, 'set')
        E.assume(ForAll([x], Select(S, x) == mem(x), patterns=[Select(S, x)]))
        pt = inv(x)
        while z3.is_app(pt) and pt.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(prover.has_quant(c) for c in pt.children()):
            pt = pt.children()[-1]
        E.assume(ForAll([x], Select(S, x) == mem(x), patterns=[pt]) if z3.is_app(pt) and pt.decl().kind() == z3.Z3_OP_UNINTERPRETED and pt.num_args() else True)
        E.assume(Card(S) == zi(n))
        q = bvar(IntSort(), 'q')
        E.assume(ForAll([q], Implies(zb(inrange(q, n)), Select(S, f(q)))))
        return PSet.arr(E, S, card=n)
    x = bvar(Lbl, 'l')
    S = E.fresh(SetL, 'set')
    E.assume(ForAll([x], Select(S, x) == zb(mk_any(lambda i: veq(f(i), x), n)), patterns=[Select(S, x)]))
    q = bvar(IntSort(), 'q')
    E.assume(ForAll([q], Implies(zb(inrange(q, n)), Select(S, f(q)))))
    E.assume(Card(S) >= 0)
    E.assume(Card(S) <= zi(n))
    return PSet.arr(E, S)


def gridlist_has(I, v):
    if getattr(v, 'has', None) is not None:
        return v.has
    def has(e):
        return mk_any(lambda i: grid_row_any(v, i, e), v.n)
    return has


def grid_row_any(v, i, e):
    r = v.row(i)
    if len(r) == 5:
        return r[4](tuple(e))
    _, m, P, V = r
    return mk_any(lambda j: band(P(j) if P is not None else True, veq(V(j), tuple(e))), m)


@fn('builtins.dict')
def b_dict(I, *a, **kw):
    E = I.E
    d = PDict.of(E)
    if a:
        it = iterate(I, a[0])
        if isinstance(it.n, int):
            for k in range(it.n):
                x = it.fn(IntVal(k))
                if isinstance(x, PList):
                    x = x.items
                dict_set(I, d, x[0], x[1])
        else:
            return dict_from_pairs2(I, it)
    for k, v in kw.items():
        dict_set(I, d, k, v)
    d.d['log'] = ()
    return d


def dict_from_pairs2(I, it):
    return dict_from_pairs(I, PList.sym(I.E, it.n, it.fn))


@fn('builtins.sum', 'numpy.sum', 'array.sum', 'math.fsum')
def b_sum(I, v, start=0, axis=None, **kw):
    from . import libnp
    if isinstance(v, PArr):
        if axis is None and not isinstance(start, int):
            axis = start
        return libnp.reduce(I, v, axis, 'sum')
    if isinstance(v, (PList, PIter, tuple)):
        it = iterate(I, v)
        fl = v.filt() if isinstance(v, PList) else getattr(it, 'filt', None)
        if fl is not None:
            n, P, V = fl
            s = mk_sum(lambda i: ite(P(i), V(i), 0), n)
        else:
            s = mk_sum(lambda i: it.fn(i), it.n)
        return add(s, start)
    raise Unsupported('sum of a ' + kind_of(v))


@fn('builtins.int')
def b_int(I, v=0):
    if isinstance(v, str):
        return int(v)
    if isinstance(v, bool):
        return int(v)
    if isconc(v):
        return int(v)
    if isz(v) and v.sort() == R:
        return conc(trunc(v))
    if isz(v):
        return zi(v)
    if isinstance(v, PArr) and v.ndim == 0:
        return b_int(I, v.get())
    raise Unsupported('int()')


@fn('builtins.float')
def b_float(I, v=0):
    if is_num(v):
        return conc(zr(v))
    raise Unsupported('float()')


@fn('builtins.bool')
def b_bool(I, v=False):
    return conc_b(I.truth(v))


@fn('builtins.str')
def b_str(I, v=''):
    return to_str(I, v)


@fn('builtins.print', 'tqdm.tqdm.write')
def b_print(I, *a, **k):
    return None


@fn('builtins.abs', 'numpy.abs', 'numpy.absolute')
def b_abs(I, v):
    if isinstance(v, PArr):
        from . import libnp
        return libnp.map1(I, v, lambda x: ite(lt(x, 0), sub(0, x), x), v.dt)
    return ite(lt(v, 0), sub(0, v), v)


@fn('builtins.min')
def b_min(I, *a, **kw):
    return minmax(I, a, kw, '<=')


@fn('builtins.max')
def b_max(I, *a, **kw):
    return minmax(I, a, kw, '>=')


def minmax(I, a, kw, op):
    if kw:
        raise Unsupported('min/max key')
    if len(a) == 1:
        it = iterate(I, a[0])
        if not isinstance(it.n, int):
            E = I.E
            E.oblige(zi(it.n) > 0, 'min/max of a non-empty sequence')
            k = E.fresh(IntSort(), 'mk')
            E.assume(inrange(k, it.n))
            E.assume(all_in(lambda i: rel(op, it.fn(k), it.fn(i)), it.n))
            return it.fn(k)
        a = [it.fn(IntVal(k)) for k in range(it.n)]
    v = a[0]
    for x in a[1:]:
        v = ite(rel(op, v, x), v, x)
    return v


@fn('builtins.any')
def b_any(I, v):
    it = iterate(I, v)
    return conc_b(mk_any(lambda i: I.truth(it.fn(i)), it.n))


@fn('builtins.all')
def b_all(I, v):
    it = iterate(I, v)
    return conc_b(mk_all(lambda i: I.truth(it.fn(i)), it.n))


@fn('builtins.isinstance')
def b_isinstance(I, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if isinstance(x, ClassInfo):
            if isinstance(v, PInst) and (v.cls is x or x.name in getattr(v.cls, 'bases', [])):
                return True
            continue
        nm = x.name.split('.')[-1] if isinstance(x, (Typ, Mod, LibFn)) else ''
        k = kind_of(v)
        if nm == 'list' and k in ('list', 'gridlist'):
            return True
        if nm == 'ndarray' and k == 'arr':
            return True
        if nm == 'DataFrame' and k == 'dframe':
            return True
        if nm == 'dict' and k == 'dict':
            return True
        if nm == 'str' and k == 'str':
            return True
        if nm in ('int', 'integer') and (isinstance(v, int) or (isz(v) and v.sort() == IntSort())):
            return True
        if nm == 'float' and (isinstance(v, (float, Fraction)) or (isz(v) and v.sort() == R)):
            return True
        if nm == 'set' and k == 'set':
            return True
    return False


@fn('builtins.hasattr')
def b_hasattr(I, o, n):
    if isinstance(o, PInst) and isinstance(o.cls, ClassInfo):
        return n in o.d or I.repo.method(o.cls, n) is not None
    raise Unsupported('hasattr')


@fn('builtins.getattr')
def b_getattr(I, o, n, *d):
    return I.attr(o, n)


@fn('builtins.round', 'numpy.around', 'numpy.round', 'numpy.round_')
def b_round(I, v, nd=0, decimals=None, ndigits=None):
    nd = decimals if decimals is not None else ndigits if ndigits is not None else nd
    if isinstance(v, PArr):
        from . import libnp
        if v.dt == 'i':
            return libnp.copy(I, v)
        return libnp.map1(I, v, lambda x: RND(zr(x), zi(nd)), 'r')
    if is_num(v):
        return RND(zr(v), zi(nd))
    raise Unsupported('round')


@fn('builtins.map')
def b_map(I, f, *vs):
    E = I.E
    its = [iterate(I, v) if not (isinstance(v, Opaque) and v.kind in ('combos', 'edgeset')) else v for v in vs]
    if len(its) == 1 and isinstance(its[0], Opaque) and its[0].kind == 'combos':
        if isinstance(f, LibFn) and f.name == 'builtins.list':
            return Opaque('combos', l=its[0].l, size=its[0].size, aslist=True)
        raise Unsupported('map over combinations')
    if len(its) == 1 and isinstance(its[0], Opaque) and its[0].kind == 'edgeset':
        if isinstance(f, LibFn) and f.name == 'builtins.tuple':
            return its[0]
        raise Unsupported('map over edges')
    n = its[0].n
    for t in its[1:]:
        if not eqdim(E, n, t.n):
            n = If(zi(n) <= zi(t.n), zi(n), zi(t.n))
    if isinstance(f, LibFn) and f.name == 'builtins.tuple' and len(its) == 1:
        it = its[0]
        probe = it.fn(bvar(IntSort()))
        if isinstance(probe, tuple):
            return it
    if isinstance(n, int) and n <= 24:
        vals = [I.call(f, [t.fn(IntVal(k)) for t in its], {}) for k in range(n)]
        return PIter(n, tuple_reader(E, tuple(vals)))
    P, V, _ = I.generic_map(n, lambda i: (True, I.call(f, [t.fn(i) for t in its], {})))
    return PIter(n, V)


@fn('builtins.filter')
def b_filter(I, f, v):
    it = iterate(I, v)
    P, V, _ = I.generic_map(it.n, lambda i: (zb(I.truth(I.call(f, [it.fn(i)], {}))), it.fn(i)), force=True)
    n = it.n
    l = Lambda_b(P)
    return PIter(Cnt(l, zi(n)), lambda k: V(Sel(l, zi(n), z(k))))


@fn('builtins.sorted')
def b_sorted(I, v, key=None, reverse=False):
    E = I.E
    if reverse is not False:
        raise Unsupported('sorted reverse')
    it = iterate(I, v)
    if isinstance(it.n, int) and it.n <= 1:
        return PList.of(E, [it.fn(IntVal(k)) for k in range(it.n)])
    probe = it.fn(bvar(IntSort()))
    inv = getattr(it, 'inv', None)
    if kind_of(probe) == 'str' and inv is not None and key is not None:
        n, f = it.n, it.fn
        out = E.freshfn('srt', IntSort(), Lbl)
        pos = E.freshfn('spos', Lbl, IntSort())
        q, q2, x = bvar(IntSort(), 'q'), bvar(IntSort(), 'q'), bvar(Lbl, 'l')
        mem = lambda y: zb(band(inrange(inv(y), n), eq(f(inv(y)), y)))
        src = getattr(it, 'src', None)
        if src is not None and src.d.get('isset') is not None:
            a = src.d['isset']
            mem = lambda y: zb(sel(a, y))
        E.assume(ForAll([q], Implies(zb(inrange(q, n)), And(mem(out(q)), pos(out(q)) == q)), patterns=[out(q)]))
        E.assume(ForAll([x], Implies(mem(x), And(zb(inrange(pos(x), n)), out(pos(x)) == x)), patterns=[pos(x)]))
        E.assume(ForAll([x], Implies(Not(mem(x)), pos(x) == -1), patterns=[pos(x)]))
        P, K, _ = I.generic_map(n, lambda i: (True, I.call(key, [out(i)], {})))
        E.assume(ForAll([q, q2], Implies(And(0 <= q, q < q2, q2 < n), zb(le(K(q), K(q2)))), patterns=[z3.MultiPattern(out(q), out(q2))]))
        r = PList.sym(E, n, out, inv=pos)
        if src is not None and src.d.get('isset') is not None:
            r.d['isset'] = src.d['isset']
        return r
    if is_num(probe) and key is None:
        n, f = it.n, it.fn
        srt = probe.sort() if isz(probe) else IntSort()
        out = E.freshfn('srt', IntSort(), srt)
        pi = E.freshfn('perm', IntSort(), IntSort())
        pj = E.freshfn('permi', IntSort(), IntSort())
        q, q2 = bvar(IntSort(), 'q'), bvar(IntSort(), 'q')
        E.assume(ForAll([q], Implies(zb(inrange(q, n)), And(zb(inrange(pi(q), n)), out(q) == z(f(pi(q))), pj(pi(q)) == q)), patterns=[out(q)]))
        E.assume(ForAll([q], Implies(zb(inrange(q, n)), And(zb(inrange(pj(q), n)), pi(pj(q)) == q, out(pj(q)) == z(f(q)))), patterns=[pj(q)]))
        E.assume(ForAll([q, q2], Implies(And(0 <= q, q < q2, q2 < n), out(q) <= out(q2)), patterns=[z3.MultiPattern(out(q), out(q2))]))
        return PList.sym(E, n, out)
    raise Unsupported('sorted')


@fn('float.is_integer')
def f_isint(I, v):
    if isconc(v):
        return float(v).is_integer()
    if v.sort() == IntSort():
        raise PyRaise('TypeError')
    return z3.IsInt(zr(v))


@fn('copy.copy')
def c_copy(I, v, *a):
    if kind_of(v) == 'dframe':
        raise Unsupported('shallow copy of a frame')
    return c_deepcopy(I, v)


@fn('copy.deepcopy')
def c_deepcopy(I, v, *a):
    E = I.E
    if isinstance(v, PList):
        if v.items is not None:
            return PList.of(E, v.items)
        return PList.sym(E, v.n, v.getter(), inv=v.d['inv'])
    if isinstance(v, PArr):
        from . import libnp
        return libnp.copy(I, v)
    if kind_of(v) == 'dframe':
        from . import libpd
        return libpd.copy(I, v)
    if isinstance(v, (int, float, str, tuple)) or v is None or isz(v):
        return v
    if isinstance(v, Opaque) and v.kind == 'edgeset':
        return v
    if isinstance(v, PSet):
        return b_set(I, v)
    raise Unsupported('copy of a ' + kind_of(v))


# ------------------------------------------------------------------------- list methods

@fn('list.append')
def l_append(I, l, v):
    l.append(v)


@fn('list.extend')
def l_extend(I, l, v):
    list_extend(I, l, v)


@fn('list.insert')
def l_insert(I, l, i, v):
    E = I.E
    i = conc(i)
    if l.items is not None and isinstance(i, int):
        it = list(l.items)
        it.insert(i, v)
        l.set(items=tuple(it), inv=None, log=l.d['log'] + (('insert', i, v),))
        return
    n, g = l.symbolic()
    if not (isinstance(i, int) and i == 0):
        i = clampidx(E, i, n, 0)

    def rd(k):
        c = eq(k, i)
        if c is True:
            return v
        c2 = lt(k, i)
        rest = g(k) if c2 is True else g(sub(k, 1)) if c2 is False else merge_val(E, c2, g(k), g(sub(k, 1)))
        return rest if c is False else merge_val(E, c, v, rest)
    l.setto(add(n, 1), rd)


def find_index(I, l, x):
    """(position or None, known_member): python list.index semantics; raises ValueError on the other branch"""
    E = I.E
    if l.items is not None:
        for k, y in enumerate(l.items):
            if l_same(I, y, x):
                return k
        raise PyRaise('ValueError')
    if l.d['inv'] is not None:
        m = band(inrange(l.d['inv'](x), l.n), eq(l.get(l.d['inv'](x)), x))
        if not quick(E, m):
            if I.tries == 0 and E.default_inv:
                E.oblige(m, 'the item looked for is in the list')
            elif not E.branch(zb(m)):
                raise PyRaise('ValueError')
        return l.d['inv'](x)
    g, n = l.getter(), l.n
    if not E.branch(zb(mk_any(lambda i: veq(g(i), x), n))):
        raise PyRaise('ValueError')
    i = E.fresh(IntSort(), 'idx')
    E.assume(inrange(i, n))
    E.assume(veq(g(i), x))
    E.assume(all_in(lambda q: bnot(veq(g(q), x)), i))
    return i


def l_same(I, a, b):
    c = conc_b(veq(a, b))
    if isinstance(c, bool):
        return c
    return I.E.branch(c)


@fn('list.index')
def l_index(I, l, x):
    return find_index(I, l, x)


@fn('list.remove')
def l_remove(I, l, x):
    i = find_index(I, l, x)
    list_del(I, l, i)


@fn('list.pop')
def l_pop(I, l, i=-1):
    i = norm_index(I.E, i, l.n, 'pop from a non-empty list')
    v = l.get(z(i) if not isinstance(i, int) else i)
    list_del(I, l, i)
    return v


@fn('list.clear')
def l_clear(I, l):
    l.set(items=(), n=0, fn=None, inv=None, log=l.d['log'] + (('clear',),))


@fn('list.copy')
def l_copy(I, l):
    return c_deepcopy(I, l)


@fn('list.count')
def l_count(I, l, x):
    n, g = l.symbolic()
    return mk_cnt(lambda i: veq(g(i), x), n) if not isinstance(n, int) else mk_sum(lambda i: ite(veq(g(i), x), 1, 0), n)


@fn('list.__contains__', 'set.__contains__', 'dict.__contains__')
def l_contains(I, l, x):
    return contains(I, l, x)


@fn('list.__len__', 'set.__len__', 'dict.__len__', 'arr.__len__')
def l_len(I, l):
    return b_len(I, l)


# ------------------------------------------------------------------------- sets

@fn('set.add')
def s_add(I, s, x):
    E = I.E
    if s.d['items'] is not None and not s.d['items'] and kind_of(x) == 'str':
        s.set(a=z3.Store(z3.K(Lbl, BoolVal(False)), lab(x), BoolVal(True)), items=None, log=s.d['log'] + (('add', x),), card=None)
        return
    a = s.array()
    card_store(E, a, lab(x), True)
    s.set(a=z3.Store(a, lab(x), BoolVal(True)), items=None, has=None, card=None, log=s.d['log'] + (('add', x),))


def card_store(E, a, x, val):
    new = z3.Store(a, x, BoolVal(val))
    mem = zb(sel(a, x))
    if val:
        E.assume(Card(new) == Card(a) + If(mem, IntVal(0), IntVal(1)))
    else:
        E.assume(Card(new) == Card(a) - If(mem, IntVal(1), IntVal(0)))
    E.assume(Card(a) >= 0)
    E.assume(Card(new) >= 0)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        E.assume(Card(a) == 0)
    # a member makes the set non-empty
    E.assume(Implies(mem, Card(a) >= 1))
    return new


@fn('set.remove')
def s_remove(I, s, x):
    E = I.E
    m = s.member(x)
    if not (m is True or quick(E, m)):
        if I.tries:
            if not E.branch(zb(m)):
                raise PyRaise('KeyError')
        else:
            E.oblige(zb(m), 'the element that is removed from a set is in it (no KeyError)')
    a = s.array()
    card_store(E, a, lab(x), False)
    s.set(a=z3.Store(a, lab(x), BoolVal(False)), items=None, has=None, card=None, log=s.d['log'] + (('remove', x),))


@fn('set.discard')
def s_discard(I, s, x):
    E = I.E
    a = s.array()
    card_store(E, a, lab(x), False)
    s.set(a=z3.Store(a, lab(x), BoolVal(False)), items=None, has=None, card=None, log=s.d['log'] + (('remove', x),))


def set_combine(I, a, b, op):
    E = I.E
    if not isinstance(b, PSet):
        b = b_set(I, b)
    A, Bm = a.array(), b.array()
    S = E.fresh(SetL, 'set')
    x = bvar(Lbl, 'l')
    ma, mb = zb(sel(A, x)), zb(sel(Bm, x))
    body = And(ma, Not(mb)) if op == '-' else Or(ma, mb) if op == '|' else And(ma, mb)
    E.assume(ForAll([x], Select(S, x) == body, patterns=[Select(S, x)]))
    for y in (ma, mb) if op == '|' else (ma,):
        if z3.is_select(y) and z3.is_const(y.arg(0)) and y.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
            E.assume(ForAll([x], Select(S, x) == body, patterns=[y]))
    E.assume(Card(S) >= 0)
    if op != '|':
        E.assume(Card(S) <= Card(A))
    # Card(S)==0 iff empty (witness for the positive case)
    w = E.fresh(Lbl, 'wit')
    E.assume(Implies(Card(S) > 0, Select(S, w)))
    E.assume(ForAll([x], Implies(Select(S, x), Card(S) > 0), patterns=[Select(S, x)]))
    return PSet.arr(E, S)


@fn('set.difference')
def s_diff(I, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('edgeset', has=lambda e: band(a.has(e), bnot(b.has(e))))
    return set_combine(I, a, b, '-')


@fn('set.union')
def s_union(I, a, *bs):
    for b in bs:
        a = set_combine(I, a, b, '|')
    return a


@fn('set.intersection')
def s_inter(I, a, b):
    return set_combine(I, a, b, '&')


@fn('set.update')
def s_update(I, a, b):
    r = set_combine(I, a, b, '|')
    a.set(a=r.d['a'], items=None, has=None, card=None, log=a.d['log'] + (('bulk',),))


@fn('set.difference_update')
def s_dupdate(I, a, b):
    r = set_combine(I, a, b, '-')
    a.set(a=r.d['a'], items=None, has=None, card=None, log=a.d['log'] + (('bulk',),))


@fn('set.copy')
def s_copy(I, a):
    return b_set(I, a)


@fn('set.clear')
def s_clear(I, a):
    a.set(a=None, items=(), has=None, card=None, log=a.d['log'] + (('bulk',),))


# sets of pairs
@fn('edgeset.difference', 'edgeset.__sub__')
def es_diff(I, a, b):
    h2 = pairs_has(I, b)
    return Opaque('edgeset', has=lambda e: band(a.has(e), bnot(h2(e))))


@fn('edgeset.union')
def es_union(I, a, b):
    h2 = pairs_has(I, b)
    return Opaque('edgeset', has=lambda e: bor(a.has(e), h2(e)))


@fn('edgeset.intersection')
def es_inter(I, a, b):
    h2 = pairs_has(I, b)
    return Opaque('edgeset', has=lambda e: band(a.has(e), h2(e)))


@fn('edgeset.copy')
def es_copy(I, a):
    return a


def pairs_has(I, b):
    if isinstance(b, Opaque) and b.kind in ('edgeset', 'chain'):
        return b.has
    if isinstance(b, Opaque) and b.kind == 'gridlist':
        return gridlist_has(I, b)
    it = iterate(I, b)
    if hasattr(it, 'has'):
        return it.has
    n, f = it.n, it.fn
    return lambda e: mk_any(lambda i: veq(f(i), tuple(e)), n)


def _es_len(I, v):
    E = I.E
    n = E.fresh(IntSort(), 'nedges')
    E.assume(n >= 0)
    return n


LEN['edgeset'] = _es_len
LEN['gridlist'] = lambda I, v: grid_seq(I, v).n

# ------------------------------------------------------------------------- dict methods


@fn('dict.get')
def d_get(I, d, k, default=None):
    h = dict_has(I, d, k)
    if I.E.branch(zb(h)) if not isinstance(h, bool) else h:
        return dict_get(I, d, k)
    return default


@fn('dict.keys')
def d_keys(I, d):
    return Opaque('dictkeys', of=d)


@fn('dict.values')
def d_values(I, d):
    return Opaque('dictvalues', of=d)


@fn('dict.items')
def d_items(I, d):
    return Opaque('dictitems', of=d)


# ------------------------------------------------------------------------- str
@fn('str.format', 'str.join', 'str.strip', 'text.format')
def s_text(I, *a, **k):
    return Opaque('text')


# ------------------------------------------------------------------------- math and scipy

@fn('math.log', 'numpy.log')
def m_log(I, v):
    if isinstance(v, PArr):
        from . import libnp
        return libnp.map1(I, v, lambda x: LOG(zr(x)), 'r')
    I.E.oblige(zr(v) > 0, 'logarithm of a positive number')
    return LOG(zr(v))


@fn('scipy.special.loggamma', 'scipy.special.gammaln', 'math.lgamma')
def m_lgam(I, v):
    if isinstance(v, PArr):
        from . import libnp
        return libnp.map1(I, v, lambda x: LGAM(zr(x)), 'r')
    return LGAM(zr(v))


@fn('math.sqrt', 'numpy.sqrt')
def m_sqrt(I, v):
    if isinstance(v, PArr):
        from . import libnp
        return libnp.map1(I, v, lambda x: SQRT(zr(x)), 'r')
    return SQRT(zr(v))


@fn('scipy.stats.chi2.ppf')
def st_chi(I, p, df):
    return CHI2PPF(zr(p), zr(df))


@fn('scipy.stats.f.ppf')
def st_f(I, p, a, b):
    if any(isinstance(x, PArr) for x in (p, a, b)):
        from . import libnp
        a, b = libnp.as_arr(I, a), libnp.as_arr(I, b)
        ra, rb = a.reader(), b.reader()
        return PArr.of(I.E, 'r', a.shape, lambda idx: FPPF(zr(p), zr(ra(idx)), zr(rb(idx))))
    return FPPF(zr(p), zr(a), zr(b))


@fn('scipy.stats.chi2.isf')
def st_chi_isf(I, p, df):
    return st_chi(I, sub(1, p), df)


@fn('scipy.stats.f.isf')
def st_f_isf(I, p, a, b):
    return st_f(I, sub(1, p), a, b)


@fn('math.pow', 'builtins.pow')
def m_pow(I, a, b):
    return power(a, b)


@fn('numpy.power')
def np_power(I, a, b):
    if isinstance(a, PArr) or isinstance(b, PArr):
        from . import libnp
        return libnp.elementwise(I, 'Pow', a, b)
    return power(a, b)


# ------------------------------------------------------------------------- itertools

@fn('itertools.permutations')
def it_perm(I, v, r=None):
    E = I.E
    it = iterate(I, v)
    if not cis(r, 2):
        raise Unsupported('permutations')
    n, f = it.n, it.fn
    inv = getattr(it, 'inv', None)
    if inv is None:
        raise Unsupported('permutations of a list with possible duplicates')
    mem = lambda x: band(inrange(inv(x), n), eq(f(inv(x)), x))
    return Opaque('edgeset', has=lambda e: band(mem(lab(e[0])), mem(lab(e[1])), bnot(eq(lab(e[0]), lab(e[1])))))


@fn('itertools.combinations')
def it_comb(I, v, r):
    return Opaque('combos', l=v, size=r, aslist=False)


@fn('itertools.product')
def it_product(I, a, b, **kw):
    E = I.E
    if kw:
        raise Unsupported('product repeat')
    x, y = iterate(I, a), iterate(I, b)
    if isinstance(y.n, int) and y.n == 1:
        v = y.fn(IntVal(0))
        return PIter(x.n, lambda i: (x.fn(i), v))
    if isinstance(x.n, int) and x.n == 1:
        v = x.fn(IntVal(0))
        return PIter(y.n, lambda i: (v, y.fn(i)))
    if isinstance(x.n, int) and isinstance(y.n, int) and x.n * y.n <= 64:
        return PIter(x.n * y.n, tuple_reader(E, tuple((x.fn(IntVal(i)), y.fn(IntVal(j))) for i in range(x.n) for j in range(y.n))))
    return PIter(mul(x.n, y.n), lambda i: (x.fn(zi(i) / zi(y.n)), y.fn(zi(i) % zi(y.n))))


@fn('itertools.chain.from_iterable')
def it_chain(I, v):
    E = I.E
    if isinstance(v, Opaque) and v.kind == 'pmap':
        v = v.res
    it = iterate(I, v)
    n, f = it.n, it.fn
    probe = f(bvar(IntSort()))
    if isinstance(probe, Opaque) and probe.kind == 'edgeset':
        return Opaque('chain', has=lambda e: mk_any(lambda i: f(i).has(e), n), wit=(n, lambda i, e: f(i).has(e)))
    raise Unsupported('chain')


def _chain_iter(I, v):
    return edge_iter(I, v)


ITER['chain'] = _chain_iter
ITER['gridlist'] = lambda I, v: edge_iter(I, Opaque('edgeset', has=gridlist_has(I, v)))

# ------------------------------------------------------------------------- random

@fn('random.choice')
def r_choice(I, l):
    E = I.E
    if isinstance(l, PSet) or isinstance(l, Opaque):
        raise PyRaise('TypeError')
    n, g = l.symbolic() if isinstance(l, PList) else (l.shape[0], lambda i: l.get(i))
    E.oblige(gt0(n) if not isinstance(n, int) else n > 0, 'choice from a non-empty sequence')
    i = E.fresh(IntSort(), 'choice')
    E.assume(inrange(i, n))
    if isinstance(n, int) and n == 1:
        return g(0)
    return g(i)


@fn('random.sample')
def r_sample(I, l, k):
    if isinstance(l, (PSet, PDict)):
        raise PyRaise('TypeError')
    if not cis(k, 1):
        E = I.E
        if isinstance(l, Opaque) and l.kind == 'gridlist':
            l = grid_seq(I, l)
        if not isinstance(l, PList):
            raise Unsupported('sample')
        n, g = l.symbolic()
        E.oblige(band(le(0, k), le(k, n)), 'no more are sampled than there are')
        p, _ = permutation(E, n)
        return PList.sym(E, k, lambda i: g(p(i)))
    return PList.of(I.E, [r_choice(I, l)])


@fn('numpy.random.choice')
def nr_choice(I, l, **kw):
    if kw:
        raise Unsupported('numpy choice')
    return r_choice(I, l if not isinstance(l, PSet) else Unsupp('choice'))


# ------------------------------------------------------------------------- processes

@fn('multiprocessing.cpu_count', 'os.cpu_count')
def mp_cpu(I):
    n = I.E.fresh(IntSort(), 'cpus')
    I.E.assume(n >= 1)
    return n


@fn('concurrent.futures.ProcessPoolExecutor', 'multiprocessing.Pool')
def cf_pool(I, max_workers=None, **kw):
    if max_workers is not None:
        E = I.E
        E.oblige(lt(0, max_workers), 'at least one worker')
    return Opaque('pool')


@fn('pool.map')
def pool_map(I, p, f, *vs):
    """executor.map in worker processes: same results as map; the effects of the calls on the parent's objects are lost"""
    E = I.E
    pre = E.snapshot()
    E.inpool = True
    try:
        r = b_map(I, f, *vs)
    finally:
        E.inpool = False
    return r


class Process(Opaque):
    """a worker process: run (once, whenever the scheduler likes) between start and join; what it changes is lost, except in the lists of the manager"""

    def __init__(self, target, args, kw):
        Opaque.__init__(self, 'process', target=target, args=args, kw=kw)

    def substituted(self, E, pairs):
        sub = lambda v: v if isinstance(v, PList) and v.d.get('managed') else subst_val(E, v, pairs)
        return Process(self.target, tuple(sub(v) for v in self.args), {k: sub(v) for k, v in self.kw.items()})


@fn('multiprocessing.Manager')
def mp_manager(I):
    return Opaque('manager')


@fn('manager.list')
def mp_list(I, m, *a):
    l = PList.of(I.E, []) if not a else FN['copy.copy'](I, FN['builtins.list'](I, *a))
    l.d['managed'] = True
    return l


@fn('multiprocessing.Process')
def mp_process(I, group=None, target=None, name=None, args=(), kwargs=None, **kw):
    if group is not None or set(kw) - {'daemon'} or kw.get('daemon') or target is None:
        raise Unsupported('Process')
    if not isinstance(args, tuple):
        it = iterate(I, args)
        if not isinstance(it.n, int):
            raise Unsupported('Process arguments')
        args = tuple(it.fn(k) for k in range(it.n))
    ks = {}
    if kwargs is not None:
        if not isinstance(kwargs, PDict) or kwargs.d['entries'] is None:
            raise Unsupported('Process arguments')
        ks = {k: v for k, v in kwargs.d['entries']}
    return Process(target, args, ks)


@fn('process.start')
def mp_start(I, p):
    E = I.E
    if getattr(E, 'started', None) is None:
        raise Unsupported('processes')
    FN['list.append'](I, E.started, p)


@fn('process.join')
def mp_join(I, p, timeout=None):
    """the process has run when join returns: its effect on the lists of the manager is applied here (the contract of the worker holds for every content of the list, so for every interleaving)"""
    E = I.E
    if getattr(E, 'started', None) is None or timeout is not None:
        raise Unsupported('processes')
    E.oblige(lt(0, E.started.n), 'a process is started before it is joined')
    FN['list.append'](I, E.joined, p)
    E.rng.d['own'] = False          # a copy of the state of the parent
    I.call(p.target, list(p.args), dict(p.kw))


@fn('numpy.random.seed')
def nr_seed(I, seed=None):
    E = I.E
    if getattr(E, 'rng', None) is None:
        raise Unsupported('seed')
    E.rng.d['own'] = seed is None       # taken from the operating system


@fn('os.getcwd')
def os_getcwd(I):
    return Opaque('text')


from . import libnp, libnx, libpd  # noqa: E402,F401  (register their functions)


def combos_iter(I, v):
    """the sub-sets of a given size of a duplicate-free list of labels, each once, every one as a list in the order of the list"""
    E = I.E
    it = iterate(I, v.l)
    inv = getattr(it, 'inv', None)
    if inv is None:
        raise Unsupported('combinations of a list with possible duplicates')
    n, g, r = it.n, it.fn, v.size
    E.oblige(le(0, r), 'the size of the combinations is not negative')
    T = E.fresh(IntSort(), 'ncombos')
    E.assume(T >= 0)
    el, cs, pos, idx = E.freshfn('combo', IntSort(), IntSort(), Lbl), E.freshfn('comboset', IntSort(), SetL), E.freshfn('cpos', IntSort(), Lbl, IntSort()), E.freshfn('cidx', SetL, IntSort())
    mem = lambda x: zb(band(inrange(inv(x), n), eq(g(inv(x)), x)))
    t, q, x, S, y = bvar(IntSort(), 't'), bvar(IntSort(), 'q'), bvar(Lbl, 'x'), bvar(SetL, 'S'), bvar(Lbl, 'y')
    ok = And(0 <= t, t < T)
    E.assume(ForAll([t], Implies(ok, Card(cs(t)) == zi(r)), patterns=[cs(t)]))
    E.assume(ForAll([t, x], Implies(And(ok, Select(cs(t), x)), And(mem(x), 0 <= pos(t, x), pos(t, x) < zi(r), el(t, pos(t, x)) == x)), patterns=[Select(cs(t), x)]))
    E.assume(ForAll([t, q], Implies(And(ok, 0 <= q, q < zi(r)), And(Select(cs(t), el(t, q)), pos(t, el(t, q)) == q)), patterns=[el(t, q)]))
    E.assume(ForAll([S], Implies(And(Card(S) == zi(r), ForAll([y], Implies(Select(S, y), mem(y)), patterns=[Select(S, y)])), And(0 <= idx(S), idx(S) < T, cs(idx(S)) == S)), patterns=[Card(S)]))

    def one(i):
        l = PList.sym(E, r, lambda k: el(zi(i), zi(k)), inv=lambda z_: pos(zi(i), lab(z_)))
        l.d['isset'] = cs(zi(i))
        return l
    out = PIter(T, one)
    out.setof = lambda i: cs(zi(i))
    return out


ITER['combos'] = combos_iter
