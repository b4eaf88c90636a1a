"""Symbolic Python values: lists, arrays, dicts, sets, graphs, instances."""
import z3
from .terms import *
from .engine import *


def frozen(o):
    o.frozen = True
    return o


class PList(HObj):
    """list: concrete items, or (n, fn) with fn: index term -> value; inv: elem -> position for duplicate-free label lists"""
    kind = 'list'

    def join(self, E, pcs, ds):
        if all(d['items'] is not None and len(d['items']) == len(ds[0]['items']) for d in ds) if ds[0]['items'] is not None else False:
            items = tuple(join_val(E, pcs, list(vs)) for vs in zip(*[d['items'] for d in ds]))
            return dict(ds[0], items=items, log=self.d['log'] + (('joined',),))
        ns, fs = [], []
        d0 = self.d
        for d in ds:
            self.d = d
            ns.append(self.n)
            fs.append(self.getter())
        self.d = d0
        invs = [d['inv'] for d in ds]
        out = dict(items=None, n=conc(join_val(E, pcs, ns)), fn=join_val(E, pcs, fs), inv=None, log=d0['log'] + (('joined',),))
        if all(x is not None for x in invs):
            out['inv'] = join_val(E, pcs, invs)
        return out

    @staticmethod
    def of(E, items):
        return PList(E, items=tuple(items), n=len(items), fn=None, inv=None, log=())

    @staticmethod
    def sym(E, n, fn, inv=None):
        return PList(E, items=None, n=conc(n), fn=fn, inv=inv, log=())

    @property
    def n(self):
        return len(self.d['items']) if self.d['items'] is not None else self.d['n']

    @property
    def items(self):
        return self.d['items']

    def get(self, i):
        i = conc(simp(i)) if isz(i) else i
        it = self.d['items']
        if it is not None:
            if isinstance(i, int):
                return it[i]
            if not it:
                raise Unsupported('index into an empty list')
            v = it[-1]
            for k in range(len(it) - 2, -1, -1):
                v = merge_val(self.E, z(i) == k, it[k], v)
            return v
        return self.d['fn'](i)

    def getter(self):
        """immutable reader of the current contents"""
        it, fn, E = self.d['items'], self.d['fn'], self.E
        if it is None:
            return fn
        tmp = tuple(it)

        def rd(i):
            i = conc(simp(i)) if isz(i) else i
            if isinstance(i, int):
                return tmp[i] if i < len(tmp) else POISON
            if not tmp:
                raise Unsupported('index into an empty list')
            v = tmp[-1]
            for k in range(len(tmp) - 2, -1, -1):
                v = merge_val(E, z(i) == k, tmp[k], v)
            return v
        return rd

    def filt(self):
        """(n, P, V): the list is [V(k) for k in range(n) if P(k)]; None if not known of the present contents"""
        t = self.d.get('filt')
        return t[:3] if t is not None and self.d['items'] is None and t[3] is self.d['fn'] else None

    def setfilt(self, n, P, V):
        self.d['filt'] = (n, P, V, self.d['fn'])

    def pairset(self):
        """membership of pairs, when the list is a selection of a set of pairs"""
        t = self.d.get('pairset')
        return t[0] if t is not None and self.d['items'] is None and t[1] is self.d['fn'] else None

    def setpairs(self, it, P, V):
        """the list is [V(k) for k in positions of it if P(k)]: note the membership if V(k) is the pair itself"""
        if not hasattr(it, 'has') or getattr(it, 'inv', None) is None:
            return
        k = bvar(I, 'q')
        a, b = V(k), it.fn(k)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and all(isz(x) and isz(y) and x.eq(y) for x, y in zip(a, b)):
            has, inv = it.has, it.inv
            self.d['pairset'] = (lambda e: band(has(e), P(inv(e)) if P is not None else True), self.d['fn'])

    def append(self, v):
        if self.d['items'] is not None:
            self.set(items=self.d['items'] + (v,), inv=None, log=self.d['log'] + (('append', v),))
        else:
            n, fn = self.d['n'], self.d['fn']
            E = self.E

            def g(i, n=n, fn=fn, v=v):
                s = eq(i, n)
                if s is True:
                    return v
                return merge_val(E, s, v, fn(i))
            self.set(n=add(n, 1), fn=g, inv=None, log=self.d['log'] + (('append', v),))

    def symbolic(self):
        """the list as (n, fn)"""
        return self.n, self.getter()

    def setto(self, n, fn, inv=None):
        self.set(items=None, n=conc(n), fn=fn, inv=inv, log=self.d['log'] + (('set',),))

    def substituted(self, E, pairs):
        if self.items is not None:
            return frozen(PList.of(E, [subst_val(E, x, pairs) for x in self.items]))
        fn, n, inv = self.d['fn'], self.d['n'], self.d['inv']

        def inv2(l):
            p = Const('pos_of_label', Lbl)      # only the captured terms are replaced, not the label asked for
            return z3.substitute(subst_val(E, zi(inv(p)), pairs), (p, lab(l)))
        return frozen(PList.sym(E, subst_val(E, n, pairs), lambda i: subst_val(E, fn(i), pairs), inv=inv2 if inv is not None else None))

    def merged(self, E, c, o):
        if self.items is not None and o.items is not None and len(self.items) == len(o.items):
            return frozen(PList.of(E, [merge_val(E, c, x, y) for x, y in zip(self.items, o.items)]))
        f, g = self.getter(), o.getter()
        return frozen(PList.sym(E, ite(c, self.n, o.n), lambda i: merge_val(E, c, f(i), g(i))))


class PArr(HObj):
    """numpy array. base: fn(idx tuple)->value.  view: base, fwd(idx)->base idx, inv(base idx)->(cond, idx)"""
    kind = 'arr'

    def join(self, E, pcs, ds):
        if any(d['base'] is not None or d['shape'] != ds[0]['shape'] or d['dt'] != ds[0]['dt'] for d in ds):
            raise Unsupported('join of array views')
        return dict(ds[0], fn=join_val(E, pcs, [d['fn'] for d in ds]), log=self.d['log'] + (('joined',),), masked=None, linv=None)

    @staticmethod
    def of(E, dt, shape, fn, masked=None, inv=None):
        return PArr(E, dt=dt, shape=tuple(conc(s) for s in shape), fn=fn, base=None, fwd=None, inv=None, log=(), masked=masked, linv=inv)

    @staticmethod
    def view(E, base, shape, fwd, inv):
        return PArr(E, dt=base.dt, shape=tuple(conc(s) for s in shape), fn=None, base=base, fwd=fwd, inv=inv, log=(), masked=None, linv=None)

    @property
    def shape(self):
        return self.d['shape']

    @property
    def dt(self):
        return self.d['dt']

    @property
    def ndim(self):
        return len(self.d['shape'])

    def get(self, *idx):
        return self.reader()(idx)

    def reader(self):
        b = self.d['base']
        if b is None:
            return self.d['fn']
        r, fwd = b.reader(), self.d['fwd']
        return lambda idx: r(fwd(tuple(idx)))

    def write(self, cond, val):
        """pointwise update: cond(idx)->Bool, val(idx)->value"""
        if self.frozen:
            raise Unsupported('write to a merged array')
        b = self.d['base']
        if b is not None:
            inv = self.d['inv']
            if inv is None:
                raise Unsupported('write through an opaque view')

            def c2(bi):
                c, vi = inv(bi)
                return band(c, cond(vi))

            def v2(bi):
                c, vi = inv(bi)
                return val(vi)
            b.write(c2, v2)
            return
        old, E, dt = self.d['fn'], self.E, self.dt

        def fn(idx):
            c = cond(idx)
            if c is True:
                return coerce_dt(dt, val(idx))
            if c is False:
                return old(idx)
            return merge_val(E, c, coerce_dt(dt, val(idx)), old(idx))
        self.set(fn=fn, masked=None, log=self.d['log'] + ((cond, lambda idx: coerce_dt(dt, val(idx))),))

    def root(self):
        return self if self.d['base'] is None else self.d['base'].root()

    def substituted(self, E, pairs):
        r = self.reader()
        m = self.d['masked']
        return frozen(PArr.of(E, self.dt, [subst_val(E, s, pairs) for s in self.shape], lambda idx: subst_val(E, r(idx), pairs)))

    def merged(self, E, c, o):
        if self.ndim != o.ndim:
            raise Unsupported('merge of arrays of different rank')
        f, g = self.reader(), o.reader()
        return frozen(PArr.of(E, self.dt, [ite(c, a, b) for a, b in zip(self.shape, o.shape)], lambda idx: merge_val(E, c, f(idx), g(idx))))


def coerce_dt(dt, v):
    if v is POISON:
        return v
    if dt == 'r':
        return zr(v) if not isinstance(v, HObj) else v
    if dt == 'i':
        if isz(v) and v.sort() == R:
            return trunc(v)
        if isinstance(v, (float, Fraction)):
            return int(v)
        return conc(zi(v))
    if dt == 'b':
        if isz(v) and v.sort() != B:
            return v != 0
        if isinstance(v, int) and not isinstance(v, bool):
            return v != 0
        return v
    return v


def trunc(v):
    """astype(int) of a real"""
    if not isz(v):
        return int(v)
    if v.sort() == I:
        return v
    if v.sort() == B:
        return zi(v)
    v = z3.simplify(v)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return v.arg(0)
    return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


class PDict(HObj):
    """dict: concrete entries (tuple of (key, value)) or symbolic has/get with an optional key enumeration (n, key(i))"""
    kind = 'dict'

    def join(self, E, pcs, ds):
        raise Unsupported('join of dictionaries')

    @staticmethod
    def of(E, entries=()):
        return PDict(E, entries=tuple(entries), has=None, get=None, keys=None, log=())

    @staticmethod
    def sym(E, has, get, keys=None):
        return PDict(E, entries=None, has=has, get=get, keys=keys, log=())

    def substituted(self, E, pairs):
        if self.d['entries'] is not None:
            return frozen(PDict.of(E, [(subst_val(E, k, pairs), subst_val(E, v, pairs)) for k, v in self.d['entries']]))
        h, g, k = self.d['has'], self.d['get'], self.d['keys']
        return frozen(PDict.sym(E, lambda x: subst_val(E, h(x), pairs), lambda x: subst_val(E, g(x), pairs),
                                None if k is None else (subst_val(E, k[0], pairs), lambda i: subst_val(E, k[1](i), pairs))))

    def merged(self, E, c, o):
        raise Unsupported('merge of dicts')


class PSet(HObj):
    """set of labels: z3 array Lbl->Bool; or concrete items; or arbitrary membership closure (pairs)"""
    kind = 'set'

    def join(self, E, pcs, ds):
        arrs = []
        d0 = self.d
        for d in ds:
            self.d = d
            arrs.append(self.array())
        self.d = d0
        return dict(a=join_val(E, pcs, arrs), items=None, has=None, card=None, log=d0['log'] + (('joined',),))

    @staticmethod
    def arr(E, a, card=None):
        return PSet(E, a=a, items=None, has=None, log=(), card=card)

    @staticmethod
    def of(E, items):
        return PSet(E, a=None, items=tuple(items), has=None, log=(), card=None)

    @staticmethod
    def fun(E, has, card=None):
        return PSet(E, a=None, items=None, has=has, log=(), card=card)

    def member(self, x):
        if self.d['a'] is not None:
            return sel(self.d['a'], lab(x))
        if self.d['items'] is not None:
            return bor(*[veq(x, y) for y in self.d['items']])
        return self.d['has'](x)

    def membership(self):
        a, it, h = self.d['a'], self.d['items'], self.d['has']
        if a is not None:
            return lambda x: sel(a, lab(x))
        if it is not None:
            return lambda x: bor(*[veq(x, y) for y in it])
        return h

    def array(self):
        """as a z3 set of labels"""
        if self.d['a'] is not None:
            return self.d['a']
        if self.d['items'] is not None:
            a = z3.K(Lbl, BoolVal(False))
            for x in self.d['items']:
                a = z3.Store(a, lab(x), BoolVal(True))
            return a
        x = bvar(Lbl, 'l')
        return Lambda([x], zb(self.d['has'](x)))

    def substituted(self, E, pairs):
        if self.d['items'] is not None:
            return frozen(PSet.of(E, [subst_val(E, x, pairs) for x in self.d['items']]))
        if self.d['a'] is not None:
            return frozen(PSet.arr(E, z3.substitute(self.d['a'], *pairs)))
        h = self.d['has']
        return frozen(PSet.fun(E, lambda x: subst_val(E, h(x), pairs)))

    def merged(self, E, c, o):
        f, g = self.membership(), o.membership()
        return frozen(PSet.fun(E, lambda x: ite(c, f(x), g(x))))


class PGraph(HObj):
    """networkx.DiGraph over labels: node set array, predecessor sets  head -> set of tails, attributes name -> label -> value"""
    kind = 'graph'

    def join(self, E, pcs, ds):
        names = [tuple(k for k, _ in d['attrs']) for d in ds]
        if any(n != names[0] for n in names):
            raise Unsupported('join of graphs')
        at = tuple((k, tuple(join_val(E, pcs, [dict(d['attrs'])[k][i] for d in ds]) for i in (0, 1))) for k in names[0])
        return dict(ds[0], nodes=join_val(E, pcs, [d['nodes'] for d in ds]), preds=join_val(E, pcs, [d['preds'] for d in ds]), attrs=at, log=self.d['log'] + (('joined',),))

    @staticmethod
    def empty(E):
        return PGraph(E, nodes=z3.K(Lbl, BoolVal(False)), preds=z3.K(Lbl, z3.K(Lbl, BoolVal(False))), attrs=(), log=())

    def edge(self, a, b):
        return sel(sel(self.d['preds'], lab(b)), lab(a))

    def node(self, a):
        return sel(self.d['nodes'], lab(a))

    def attr(self, name):
        return dict(self.d['attrs']).get(name)

    def setattr_(self, name, fn):
        at = dict(self.d['attrs'])
        at[name] = fn
        self.set(attrs=tuple(at.items()))

    def substituted(self, E, pairs):
        raise Unsupported('substitution in a graph')

    def merged(self, E, c, o):
        raise Unsupported('merge of graphs')


class PInst(HObj):
    """instance of a class of the repository (cls: ClassInfo) or of an abstract library class (cls: str)"""
    kind = 'inst'

    def __init__(self, E, cls, attrs=None):
        super().__init__(E, **(attrs or {}))
        self.cls = cls

    def substituted(self, E, pairs):
        o = PInst(E, self.cls, {k: subst_val(E, v, pairs) for k, v in self.d.items()})
        return frozen(o)

    def merged(self, E, c, o):
        if self.cls is not o.cls:
            raise Unsupported('merge of instances of different classes')
        at = {}
        for k in set(self.d) | set(o.d):
            at[k] = merge_val(E, c, self.d.get(k, POISON), o.d.get(k, POISON))
        return frozen(PInst(E, self.cls, at))


class PQueue(HObj):
    """queue.Queue of labels: elements at positions [head, tail); pos (ghost): the position at which a label was last put"""
    kind = 'queue'

    def join(self, E, pcs, ds):
        return dict(log=self.d['log'] + (('joined',),), **{k: join_val(E, pcs, [d[k] for d in ds]) for k in ('head', 'tail', 'fn', 'pos')})

    def substituted(self, E, pairs):
        raise Unsupported('substitution in a queue')

    def merged(self, E, c, o):
        raise Unsupported('merge of queues')


class Frame(HObj):
    kind = 'frame'

    def substituted(self, E, pairs):
        raise Unsupported('frame substitution')

    merged = substituted


class EdgeView:
    """list/set of the edges of a graph at a moment: membership of (tail, head)"""

    def __init__(self, has, order=None):
        self.has = has


class PIter:
    """a finite iterable: length and element reader; consumed lazily"""

    def __init__(self, n, fn):
        self.n, self.fn = conc(n), fn

    def substituted(self, E, pairs):
        f = self.fn
        return PIter(subst_val(E, self.n, pairs), lambda i: subst_val(E, f(i), pairs))


class FuncRef:
    def __init__(self, node, mod, cls=None, self_=None, name=None, static=False):
        self.node, self.mod, self.cls, self.self_, self.static = node, mod, cls, self_, static
        self.name = name or node.name

    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name


class Closure:
    """lambda"""

    def __init__(self, node, frame, mod):
        self.node, self.frame, self.mod = node, frame, mod


class LibFn:
    def __init__(self, name, self_=None):
        self.name, self.self_ = name, self_

    def __repr__(self):
        return 'LibFn(%s)' % self.name


class Mod:
    def __init__(self, name):
        self.name = name


class Typ:
    """a type object such as int, np.float64, pd.DataFrame"""

    def __init__(self, name):
        self.name = name


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class PyNative:
    """spec-provided callable: fn(E, *args, **kw)"""

    def __init__(self, fn, name='native'):
        self.fn, self.name = fn, name


class Opaque:
    """a value of a library class with handlers in lib.OPAQUE[kind]"""

    def __init__(self, kind, **d):
        self.kind = kind
        self.__dict__.update(d)

    def substituted(self, E, pairs):
        return Opaque(**{k: subst_val(E, v, pairs) for k, v in self.__dict__.items()})

    def merged(self, E, c, o):
        if self.kind == 'edgeset' and o.kind == 'edgeset':
            f, g = self.has, o.has
            return Opaque('edgeset', has=lambda e: ite(c, f(e), g(e)))
        raise Unsupported('merge of ' + self.kind)


def sel(a, i):
    """array read; simplifies constant arrays, lambdas and literal stores"""
    while True:
        if z3.is_quantifier(a) and a.is_lambda():
            return z3.substitute_vars(a.body(), z(i))
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            r = a.arg(0)
            return conc(r)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            if a.arg(1).eq(z(i)):
                return conc(a.arg(2))
        return Select(a, z(i))


def lab(v):
    if isinstance(v, str):
        return lblconst(v)
    if isz(v) and v.sort() == Lbl:
        return v
    raise Unsupported('not a label: %r' % (v,))


def veq(a, b):
    """Python == as a formula"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    sa = isz(a) or isconc(a) or isinstance(a, str)
    sb = isz(b) or isconc(b) or isinstance(b, str)
    if sa and sb:
        if isinstance(a, str) and not (isz(b) and b.sort() == Lbl):
            return False
        if isinstance(b, str) and not (isz(a) and a.sort() == Lbl):
            return False
        return eq(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return band(*[veq(x, y) for x, y in zip(a, b)])
    if isinstance(a, PSet) and isinstance(b, PSet):
        if a.d['items'] is not None and b.d['items'] is not None:
            return band(*[b.member(x) for x in a.d['items']], *[a.member(x) for x in b.d['items']])
        f, g = a.membership(), b.membership()
        return forall(lambda x: eq(zb(f(x)), zb(g(x))), Lbl)
    if isinstance(a, PList) and isinstance(b, PList):
        if a.items is not None and b.items is not None:
            return band(len(a.items) == len(b.items), *[veq(x, y) for x, y in zip(a.items, b.items)])
        f, g = a.getter(), b.getter()
        return band(eq(a.n, b.n), all_in(lambda i: veq(f(i), g(i)), a.n))
    if isinstance(a, HObj) and isinstance(b, HObj) and type(a) is not type(b):
        return False
    raise Unsupported('== on %s and %s' % (type(a).__name__, type(b).__name__))
