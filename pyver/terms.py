"""Logical terms: z3 scalars plus binder symbols (sum, product, count, selection) over integer lambdas.

Every binder is an uninterpreted function whose first argument is a lambda and whose second argument is the
length; their meaning is given only by the rules of prover.py (extensionality, unfolding, bounds, splitting),
each of which is an inductive fact about finite sums/products stated there.
"""
from fractions import Fraction
import z3
from z3 import (And, Or, Not, Implies, If, IntSort, RealSort, BoolSort, ArraySort, Function, IntVal, RealVal,
                BoolVal, Const, Int, Real, Bool, ForAll, Exists, Select, ToReal, is_expr, substitute,
                DeclareSort, StringVal)

def Lambda(vs, body):
    """lambda with a canonical name for its variable, so that alpha-equivalent lambdas are the same term"""
    j = vs[0]
    c = Const('.j', j.sort())
    return z3.Lambda([c], z3.substitute(body, (j, c)))


I, R, B = IntSort(), RealSort(), BoolSort()
Lbl = DeclareSort('Lbl')


class Unsupported(Exception):
    """The code leaves the fragment the verifier understands."""


class Poison:
    def __repr__(self):
        return '<undefined>'


POISON = Poison()

AI, AR, AB = ArraySort(I, I), ArraySort(I, R), ArraySort(I, B)
SumI = Function('SumI', AI, I, I)
SumR = Function('SumR', AR, I, R)
ProdI = Function('ProdI', AI, I, I)
ProdR = Function('ProdR', AR, I, R)
Cnt = Function('Cnt', AB, I, I)          # number of k<n with lam[k]
Sel = Function('Sel', AB, I, I, I)       # k-th index (ascending) with lam
Rank = Function('Rank', AB, I, I, I)     # inverse of Sel
ArgMin = Function('ArgMin', AR, I, I)
Any = Function('AnyB', AB, I, B)         # exists k<n lam[k]
BINDERS = {f.name(): f for f in (SumI, SumR, ProdI, ProdR, Cnt, Sel, Rank, ArgMin, Any)}
BNAMES = set(BINDERS)

SetL = ArraySort(Lbl, B)                 # sets of labels
Card = Function('Card', SetL, I)
NAN = Const('NAN', R)
isnan = Function('isnan', R, B)

_bv = [0]


def bvar(sort=I, base='j'):
    _bv[0] += 1
    return Const('%s@%d' % (base, _bv[0]), sort)


_strs = {}


def lblconst(s):
    if s not in _strs:
        _strs[s] = Const('str:' + s, Lbl)
    return _strs[s]


def isz(v):
    return isinstance(v, z3.ExprRef)


def isconc(v):
    return isinstance(v, (int, float, Fraction, bool)) and not isz(v)


def z(v):
    """value -> z3 term"""
    if isz(v):
        return v
    if isinstance(v, bool):
        return BoolVal(v)
    if isinstance(v, int):
        return IntVal(v)
    if isinstance(v, float):
        if v != v:
            return NAN
        return RealVal(Fraction(str(v)))
    if isinstance(v, Fraction):
        return RealVal(v)
    if isinstance(v, str):
        return lblconst(v)
    raise Unsupported('not a scalar: %r' % (v,))


def zi(v):
    """as Int (bool -> 0/1)"""
    if isinstance(v, bool):
        return IntVal(int(v))
    v = z(v)
    if v.sort() == B:
        return If(v, IntVal(1), IntVal(0))
    if v.sort() == I:
        return v
    raise Unsupported('not an int: %s' % v)


def zr(v):
    v2 = z(v) if not isinstance(v, bool) else IntVal(int(v))
    if v2.sort() == B:
        v2 = If(v2, IntVal(1), IntVal(0))
    if v2.sort() == I:
        if z3.is_int_value(v2):
            return RealVal(v2.as_long())
        return ToReal(v2)
    if v2.sort() == R:
        return v2
    raise Unsupported('not a number: %s' % v2)


def conc(v):
    """python number if the term is a numeral, else the term"""
    if isz(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return v


def cis(v, k):
    """v is the concrete number k"""
    c = conc(v)
    return not isz(c) and c == k


def simp(t):
    return z3.simplify(t) if isz(t) else t


def same(a, b):
    """syntactic equality"""
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return isz(z(a)) and z(a).eq(z(b)) if not isinstance(a, (tuple, str)) and not isinstance(b, (tuple, str)) and a is not None and b is not None else False
    return a == b


def arith(op, a, b):
    """+ - * on scalars with the int/real promotion of Python"""
    if isconc(a) and isconc(b):
        a2 = int(a) if isinstance(a, bool) else a
        b2 = int(b) if isinstance(b, bool) else b
        if isinstance(a2, float):
            a2 = Fraction(str(a2)) if a2 == a2 else NAN
        if isinstance(b2, float):
            b2 = Fraction(str(b2)) if b2 == b2 else NAN
        if not (isz(a2) or isz(b2)):
            return a2 + b2 if op == '+' else a2 - b2 if op == '-' else a2 * b2
        a, b = a2, b2
    ra = (isz(a) and a.sort() == R) or isinstance(a, (float, Fraction))
    rb = (isz(b) and b.sort() == R) or isinstance(b, (float, Fraction))
    if ra or rb:
        a, b = zr(a), zr(b)
    else:
        a, b = zi(a), zi(b)
    if op == '+':
        if z3.is_rational_value(a) or z3.is_int_value(a):
            if conc(a) == 0:
                return b
        if (z3.is_rational_value(b) or z3.is_int_value(b)) and conc(b) == 0:
            return a
        return a + b
    if op == '-':
        if (z3.is_rational_value(b) or z3.is_int_value(b)) and conc(b) == 0:
            return a
        return a - b
    ca, cb = conc(a), conc(b)
    if isconc(ca) and ca == 1:
        return b
    if isconc(cb) and cb == 1:
        return a
    if (isconc(ca) and ca == 0) or (isconc(cb) and cb == 0):
        return RealVal(0) if (ra or rb) else IntVal(0)
    return a * b


def add(a, b):
    return conc(arith('+', a, b))


def sub(a, b):
    return conc(arith('-', a, b))


def mul(a, b):
    return conc(arith('*', a, b))


def div(a, b):
    if isconc(a) and isconc(b) and b != 0:
        return Fraction(a) / Fraction(b)
    return zr(a) / zr(b)


def ite(c, a, b):
    """If with sort promotion on scalars"""
    if isinstance(c, bool):
        return a if c else b
    cc = conc(c)
    if isinstance(cc, bool):
        return a if cc else b
    if same(a, b):
        return a
    za, zb = z(a), z(b)
    if za.sort() != zb.sort():
        if R in (za.sort(), zb.sort()):
            za, zb = zr(a), zr(b)
        else:
            za, zb = zi(a), zi(b)
    return If(c, za, zb)


def eq(a, b):
    if isconc(a) and isconc(b):
        return a == b
    za, zb = z(a), z(b)
    if za.sort() != zb.sort():
        if Lbl in (za.sort(), zb.sort()):
            return False
        if R in (za.sort(), zb.sort()):
            za, zb = zr(a), zr(b)
        else:
            za, zb = zi(a), zi(b)
    if za.eq(zb):
        return True
    return za == zb


def rel(op, a, b):
    if isconc(a) and isconc(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    ra = (isz(a) and a.sort() == R) or isinstance(a, (float, Fraction))
    rb = (isz(b) and b.sort() == R) or isinstance(b, (float, Fraction))
    a, b = (zr(a), zr(b)) if (ra or rb) else (zi(a), zi(b))
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


def lt(a, b):
    return rel('<', a, b)


def le(a, b):
    return rel('<=', a, b)


def band(*cs):
    out = []
    for c in cs:
        if c is False or (isz(c) and z3.is_false(c)):
            return False
        if c is True or (isz(c) and z3.is_true(c)):
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else And(*out)


def bor(*cs):
    out = []
    for c in cs:
        if c is True or (isz(c) and z3.is_true(c)):
            return True
        if c is False or (isz(c) and z3.is_false(c)):
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else Or(*out)


def bnot(c):
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return Not(c)


def imp(a, b):
    return bor(bnot(a), b) if isinstance(a, bool) or isinstance(b, bool) else Implies(a, b)


def inrange(i, n, lo=0):
    return band(le(lo, i), lt(i, n))


def zb(v):
    return BoolVal(v) if isinstance(v, bool) else v


def lam(fn, sort=None):
    j = bvar(I)
    body = fn(j)
    body = z(body)
    if sort == R:
        body = zr(body)
    elif sort == I:
        body = zi(body)
    return Lambda([j], body)


def mk_sum(fn, n):
    n = conc(n)
    if isinstance(n, int):
        t = 0
        for k in range(n):
            t = add(t, fn(IntVal(k)))
        return t
    j = bvar(I)
    body = z(fn(j))
    if body.sort() == B:
        body = zi(body)
    body = simp_light(body)
    if (z3.is_int_value(body) or z3.is_rational_value(body)) and conc(body) == 0:
        return 0 if body.sort() == I else Fraction(0)
    return (SumI if body.sort() == I else SumR)(Lambda([j], body), n)


def mk_prod(fn, n):
    n = conc(n)
    if isinstance(n, int):
        t = 1
        for k in range(n):
            t = mul(t, fn(IntVal(k)))
        return t
    j = bvar(I)
    body = z(fn(j))
    if body.sort() == B:
        body = zi(body)
    return (ProdI if body.sort() == I else ProdR)(Lambda([j], simp_light(body)), n)


def simp_light(t):
    return t


def mk_cnt(fn, n):
    n = conc(n)
    return Cnt(Lambda_b(fn), zi(n))


def Lambda_b(fn):
    j = bvar(I)
    return Lambda([j], zb(fn(j)))


def mk_any(fn, n):
    n = conc(n)
    if isinstance(n, int):
        return bor(*[fn(IntVal(k)) for k in range(n)])
    return Any(Lambda_b(fn), n)


def mk_all(fn, n):
    return bnot(mk_any(lambda j: bnot(fn(j)), n))


def forall(fn, *sorts, pat=None):
    vs = [bvar(s, 'q') for s in sorts]
    body = zb(fn(*vs))
    if z3.is_true(body):
        return True
    if pat is not None:
        ps = pat(*vs)
        return ForAll(vs, body, patterns=[ps] if not isinstance(ps, list) else ps)
    return ForAll(vs, body)


def all_in(fn, n, lo=0):
    """forall lo<=j<n: fn(j)"""
    n = conc(n)
    if isinstance(n, int) and isinstance(lo, int) and n - lo <= 16:
        return band(*[fn(IntVal(k)) for k in range(lo, n)])
    return forall(lambda j: imp(inrange(j, n, lo), fn(j)), I)


_KIDS = {}      # ast id -> (term, is it a binder, children); the term is kept, so its id is not used again


def kids(x):
    k = x.get_id()
    r = _KIDS.get(k)
    if r is None:
        if len(_KIDS) > 2000000:
            _KIDS.clear()
            _ALL.clear()
        q = z3.is_quantifier(x)
        r = _KIDS[k] = (x, q, [x.body()] if q else x.children())
    return r


def subterms(t, seen=None, under_binder=False):
    """all subterms that contain no free de Bruijn variable (quantifier/lambda bodies are not entered)"""
    out = []
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        out.append(x)
        _, q, ch = kids(x)
        if not q:
            stack.extend(ch)
    return out


_ALL = {}


def all_subterms(t, seen=None):
    """subterms including the ones under binders (may contain de Bruijn variables)"""
    if seen is None:
        r = _ALL.get(t.get_id())
        if r is not None:
            return r[1]
    out = []
    mine = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in mine:
            continue
        mine.add(k)
        out.append(x)
        stack.extend(kids(x)[2])
    if seen is None:
        if len(_ALL) > 100000:
            _ALL.clear()
        _ALL[t.get_id()] = (t, out)
    return out


def mentions(t, consts):
    ids = {c.decl().get_id() if isz(c) else c.get_id() for c in consts}
    for s in all_subterms(t):
        if z3.is_app(s) and s.decl().get_id() in ids:
            return True
    return False


def beta(lamt, arg):
    """apply a lambda (or array term) to an argument"""
    if z3.is_quantifier(lamt) and lamt.is_lambda():
        return z3.substitute_vars(lamt.body(), arg)
    return Select(lamt, arg)
