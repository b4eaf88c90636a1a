"""Symbolic interpreter for the Python subset used by the functions under contract.

Dropped from the source text, and nothing else: docstrings and bare string expressions, type annotations,
calls to print / tqdm display, comments.  Everything else is either executed or raises Unsupported.
"""
import ast
import os
import z3
from .terms import *
from .engine import *
from .values import *
from . import prover

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'PyCTBN', 'PyCTBN')


class ClassInfo:
    def __init__(self, name, node, mod, bases):
        self.name, self.node, self.mod, self.bases = name, node, mod, bases
        self.methods, self.static, self.props, self.attrs = {}, set(), set(), {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self.methods[st.name] = st
                for d in st.decorator_list:
                    dn = ast.unparse(d)
                    if dn == 'staticmethod':
                        self.static.add(st.name)
                    elif dn == 'property':
                        self.props.add(st.name)
                    elif dn in ('abstractmethod', 'abc.abstractmethod'):
                        pass
                    else:
                        raise Unsupported('decorator ' + dn)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.attrs[st.targets[0].id] = st.value


class Module:
    def __init__(self, path, name):
        self.path, self.name = path, name
        self.src = open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.src)
        self.env = {}


class Repo:
    """all classes and functions of the package, parsed from the working tree"""

    def __init__(self, pkg=None):
        self.pkg = pkg or PKG
        self.classes, self.modules = {}, {}
        for sub in ('structure_graph', 'utility', 'estimators', 'optimizers'):
            d = os.path.join(self.pkg, sub)
            for f in sorted(os.listdir(d)):
                if f.endswith('.py') and f != '__init__.py':
                    m = Module(os.path.join(d, f), sub + '.' + f[:-3])
                    self.modules[m.name] = m
        for m in self.modules.values():
            for st in m.tree.body:
                if isinstance(st, ast.ClassDef):
                    try:
                        ci = ClassInfo(st.name, st, m, [ast.unparse(b).split('.')[-1] for b in st.bases])
                    except Unsupported:
                        continue
                    self.classes[st.name] = ci
        for m in self.modules.values():
            self.scan_env(m)

    def scan_env(self, m):
        def imp(st):
            if isinstance(st, ast.Import):
                for a in st.names:
                    m.env[(a.asname or a.name).split('.')[0]] = Mod(a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    nm = a.asname or a.name
                    if st.level > 0:
                        if a.name in self.classes:
                            m.env[nm] = self.classes[a.name]
                        else:
                            tgt = self.find_rel(m, st, a.name)
                            m.env[nm] = tgt
                    else:
                        m.env[nm] = Mod(st.module + '.' + a.name)
        for st in m.tree.body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                imp(st)
            elif isinstance(st, ast.ClassDef) and st.name in self.classes:
                m.env[st.name] = self.classes[st.name]
            elif isinstance(st, ast.FunctionDef):
                m.env[st.name] = FuncRef(st, m)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                m.env[st.targets[0].id] = st.value      # evaluated on use

    def find_rel(self, m, st, name):
        for x in self.modules.values():
            if st.module and x.name.endswith(st.module.split('.')[-1]):
                for s in x.tree.body:
                    if isinstance(s, ast.FunctionDef) and s.name == name:
                        return FuncRef(s, x)
        return Mod('unknown.' + name)

    def method(self, cls, name):
        """(ClassInfo, node) following the bases"""
        seen = [cls]
        while seen:
            c = seen.pop(0)
            if isinstance(c, str):
                c = self.classes.get(c)
                if c is None:
                    continue
            if name in c.methods:
                return c, c.methods[name]
            seen = list(c.bases) + seen if False else seen + list(c.bases)
        return None


UNROLL = 24
SAFE_BUILTINS = ('len', 'range', 'enumerate', 'zip', 'list', 'set', 'dict', 'tuple', 'sum', 'int', 'float', 'str', 'bool', 'sorted', 'map',
                 'filter', 'any', 'all', 'isinstance', 'print', 'abs', 'min', 'max', 'round', 'reversed', 'hasattr', 'getattr', 'next', 'iter',
                 'super', 'open', 'type', 'frozenset', 'callable', 'divmod', 'pow', 'repr')


class Interp:
    def __init__(self, E, repo):
        self.E, self.repo = E, repo
        E.interp = self
        from . import lib
        self.lib = lib
        self.stack = []
        self.tries = 0       # enclosing try statements

    # ------------------------------------------------------------------ calls
    def call_function(self, fr, args, kw, contract_ok=True):
        """fr: FuncRef"""
        E = self.E
        q = fr.qual()
        full = ([fr.self_] if fr.self_ is not None else []) + list(args)
        if contract_ok and q in E.contracts and q not in E.active:
            E.used_contracts.add(q)
            bound = self.bind(fr, full, kw)
            return E.contracts[q](E, **bound)
        if len(self.stack) > 40:
            raise Unsupported('call depth')
        if q in self.stack:
            raise Unsupported('recursion in ' + q)
        if self.stack:
            E.inlined.add(q)
        bound = self.bind(fr, full, kw)
        f = Frame(E)
        f.d.update(bound)
        f.mod, f.cls = fr.mod, fr.cls
        f.fref = fr
        self.stack.append(q)
        try:
            self.block(self.body_of(fr.node), f)
            return None
        except Ret as r:
            return r.v
        finally:
            self.stack.pop()

    def body_of(self, node):
        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
                raise Unsupported(type(n).__name__)
        return node.body

    def bind(self, fr, args, kw):
        a = fr.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names) and a.vararg is None:
            raise Unsupported('too many arguments for ' + fr.name)
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                out[n] = kw.pop(n)
        if a.kwarg is not None:
            raise Unsupported('**kwargs')
        if kw:
            raise Unsupported('unexpected keyword %s for %s' % (list(kw), fr.name))
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                if n not in defs:
                    raise Unsupported('missing argument %s of %s' % (n, fr.name))
                f = Frame(self.E)
                f.mod, f.cls, f.fref = fr.mod, fr.cls, fr
                out[n] = self.ev(defs[n], f)
        return out

    def instantiate(self, cls, args, kw):
        E = self.E
        o = PInst(E, cls)
        key = cls.name + '.__init__'
        m = self.repo.method(cls, '__init__')
        if m is None:
            return o
        c, node = m
        self.call_function(FuncRef(node, c.mod, c, o), args, kw)
        return o

    def call(self, f, args, kw):
        if isinstance(f, FuncRef):
            return self.call_function(f, args, kw)
        if isinstance(f, ClassInfo):
            if f.name + '.new' in self.E.contracts and f.name + '.new' not in self.E.active:
                self.E.used_contracts.add(f.name + '.new')
                return self.E.contracts[f.name + '.new'](self.E, *args, **kw)
            return self.instantiate(f, args, kw)
        if isinstance(f, Closure):
            fr = Frame(self.E)
            fr.d.update(f.frame.d)
            fr.mod, fr.cls, fr.fref = f.mod, f.frame.cls, f.frame.fref
            a = f.node.args
            for n, v in zip([x.arg for x in a.args], args):
                fr.d[n] = v
            return self.ev(f.node.body, fr) if isinstance(f.node, ast.Lambda) else self.run_nested(f, fr)
        if isinstance(f, PyNative):
            return f.fn(self.E, *args, **kw)
        if isinstance(f, (LibFn, Mod, Typ)):
            return self.lib.call(self, f, args, kw)
        raise Unsupported('call of %r' % (f,))

    def run_nested(self, f, fr):
        try:
            self.block(self.body_of(f.node), fr)
            return None
        except Ret as r:
            return r.v

    # ------------------------------------------------------------------ expressions
    def ev(self, e, f):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, f)

    def e_Constant(self, e, f):
        v = e.value
        if isinstance(v, float):
            return v
        if isinstance(v, (int, bool, str)) or v is None:
            return v
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, e, f):
        n = e.id
        if n in f.d:
            v = f.d[n]
            if v is POISON:
                raise Unsupported('read of %s, which a summarised loop leaves undetermined' % n)
            return v
        return self.global_name(n, f)

    def global_name(self, n, f):
        env = f.mod.env
        if n in env:
            v = env[n]
            if isinstance(v, ast.AST):
                return self.ev(v, f)
            return v
        if n in SAFE_BUILTINS:
            return LibFn('builtins.' + n)
        if n in ('RuntimeError', 'ValueError', 'KeyError', 'IndexError', 'TypeError', 'Exception', 'NotImplementedError', 'AttributeError', 'ZeroDivisionError', 'StopIteration'):
            return Typ('exc.' + n)
        if n == 'object':
            return Typ('object')
        raise Unsupported('name ' + n)

    def e_Attribute(self, e, f):
        v = self.ev(e.value, f)
        return self.attr(v, e.attr, f)

    def attr(self, v, name, f=None):
        if isinstance(v, PInst) and isinstance(v.cls, ClassInfo):
            if name in v.d:
                r = v.d[name]
                if r is POISON:
                    raise Unsupported('read of attribute %s, undetermined after a summarised loop' % name)
                return r
            m = self.repo.method(v.cls, name)
            if m:
                c, node = m
                if name in c.props:
                    return self.call_function(FuncRef(node, c.mod, c, v), [], {})
                if name in c.static:
                    return FuncRef(node, c.mod, c, None, static=True)
                return FuncRef(node, c.mod, c, v)
            if name in v.cls.attrs:
                fr = Frame(self.E)
                fr.mod, fr.cls, fr.fref = v.cls.mod, v.cls, None
                return self.ev(v.cls.attrs[name], fr)
            raise Unsupported('attribute %s of %s' % (name, v.cls.name))
        if isinstance(v, ClassInfo):
            m = self.repo.method(v, name)
            if m:
                c, node = m
                return FuncRef(node, c.mod, c, None, static=name in c.static)
            raise Unsupported('class attribute %s' % name)
        return self.lib.attr(self, v, name)

    def e_Subscript(self, e, f):
        v = self.ev(e.value, f)
        ix = self.index(e.slice, f)
        return self.lib.getitem(self, v, ix)

    def index(self, s, f):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, f)
            return Slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, f) for x in s.elts)
        return self.ev(s, f)

    def e_BinOp(self, e, f):
        return self.lib.binop(self, type(e.op).__name__, self.ev(e.left, f), self.ev(e.right, f))

    def e_UnaryOp(self, e, f):
        v = self.ev(e.operand, f)
        op = type(e.op).__name__
        if op == 'Not':
            return conc_b(bnot(self.truth(v)))
        return self.lib.unop(self, op, v)

    def pure(self, n):
        for x in ast.walk(n):
            if not isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.expr_context, ast.boolop, ast.unaryop, ast.cmpop)):
                return False
            if isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops):
                return False
        return True

    def e_BoolOp(self, e, f):
        isand = isinstance(e.op, ast.And)
        acc = None
        vals = e.values
        v = self.ev(vals[0], f)
        for nxt in vals[1:]:
            t = conc_b(self.truth(v))
            if isinstance(t, bool):
                if t != isand:
                    return v
                v = self.ev(nxt, f)
                continue
            if isz(v) and v.sort() == B and self.pure(nxt):
                w = self.ev(nxt, f)
                if isinstance(w, bool) or (isz(w) and w.sort() == B):
                    v = conc_b(band(t, w) if isand else bor(t, w))
                    continue
            if self.E.branch(t):
                if not isand:
                    return True if isz(v) and v.sort() == B else v
            else:
                if isand:
                    return False if isz(v) and v.sort() == B else v
            v = self.ev(nxt, f)
        return v

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, Fraction)):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if isz(v):
            if v.sort() == B:
                return v
            if v.sort() == Lbl:
                return True
            return v != 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PList):
            return gt0(v.n)
        if isinstance(v, PArr):
            if v.ndim == 1 and conc(v.shape[0]) == 1:
                return self.truth(v.get(IntVal(0)))
            raise Unsupported('truth of an array')
        if isinstance(v, PSet):
            if v.d['items'] is not None:
                return len(v.d['items']) > 0
            x = bvar(Lbl, 'l')
            m = v.membership()
            return z3.Exists([x], zb(m(x)))
        if isinstance(v, PInst):
            m = self.repo.method(v.cls, '__bool__') or self.repo.method(v.cls, '__len__') if isinstance(v.cls, ClassInfo) else None
            if m:
                raise Unsupported('__bool__')
            return True
        if isinstance(v, PDict) and v.d['entries'] is not None:
            return len(v.d['entries']) > 0
        if isinstance(v, (FuncRef, Closure, ClassInfo)):
            return True
        return self.lib.truth(self, v)

    def cond(self, v):
        """truth value as a python bool, branching if needed"""
        return self.E.branch(zb(self.truth(v)))

    def e_Compare(self, e, f):
        left = self.ev(e.left, f)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, f)
            res2 = self.lib.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return conc_b(res2) if not isinstance(res2, HObj) else res2
            res = band(res, self.truth(res2))
            left = right
        return conc_b(res)

    def e_IfExp(self, e, f):
        c = conc_b(self.truth(self.ev(e.test, f)))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, f)
        if self.pure(e.body) and self.pure(e.orelse):
            a, b = self.ev(e.body, f), self.ev(e.orelse, f)
            try:
                return merge_val(self.E, c, a, b)
            except Unsupported:
                pass
        return self.ev(e.body if self.E.branch(c) else e.orelse, f)

    def e_Lambda(self, e, f):
        return Closure(e, f, f.mod)

    def e_Tuple(self, e, f):
        return tuple(self.elts(e.elts, f))

    def e_List(self, e, f):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iter(self.ev(x.value, f))
                segs.append(it)
            else:
                segs.append(self.ev(x, f))
        if all(not isinstance(s, PIter) or isinstance(s.n, int) for s in segs):
            out = []
            for s in segs:
                if isinstance(s, PIter):
                    out += [s.fn(IntVal(k)) for k in range(s.n)]
                else:
                    out.append(s)
            return PList.of(self.E, out)
        l = PList.of(self.E, [])
        for s in segs:
            if isinstance(s, PIter):
                self.lib.list_extend(self, l, s)
            else:
                l.append(s)
        l.set(log=())
        return l

    def elts(self, es, f):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iter(self.ev(x.value, f))
                if not isinstance(it.n, int):
                    raise Unsupported('starred symbolic iterable')
                out += [it.fn(IntVal(k)) for k in range(it.n)]
            else:
                out.append(self.ev(x, f))
        return out

    def e_Set(self, e, f):
        return PSet.of(self.E, self.elts(e.elts, f))

    def e_Dict(self, e, f):
        return PDict.of(self.E, [(self.ev(k, f), self.ev(v, f)) for k, v in zip(e.keys, e.values)])

    def e_JoinedStr(self, e, f):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, f)
                parts.append(self.lib.to_str(self, v))
        r = parts[0] if parts else ''
        for p in parts[1:]:
            r = self.lib.str_concat(self, r, p)
        return r

    def e_Starred(self, e, f):
        raise Unsupported('starred')

    # ------------------------------------------------------------------ iteration
    def iter(self, v):
        return self.lib.iterate(self, v)

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            f.d[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, tuple):
                vs = list(v)
            else:
                it = self.iter(v)
                if not isinstance(it.n, int):
                    if not self.E.entails(z(it.n) == len(t.elts)):
                        raise Unsupported('unpacking of symbolic length')
                vs = [it.fn(IntVal(k)) for k in range(len(t.elts))]
            if len(vs) != len(t.elts):
                raise PyRaise('ValueError')
            for a, b in zip(t.elts, vs):
                self.assign(a, b, f)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, f)
            if isinstance(o, PInst):
                o.set(**{t.attr: v})
            else:
                self.lib.setattr_(self, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, f)
            self.lib.setitem(self, o, self.index(t.slice, f), v)
        else:
            raise Unsupported('assignment target ' + type(t).__name__)

    def e_ListComp(self, e, f):
        return self.comp(e, f, 'list')

    def e_GeneratorExp(self, e, f):
        return self.comp(e, f, 'list')

    def e_SetComp(self, e, f):
        l = self.comp(e, f, 'list')
        return self.lib.call(self, LibFn('builtins.set'), [l], {})

    def e_DictComp(self, e, f):
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported('dict comprehension')
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        fake = ast.ListComp(elt=pair, generators=e.generators)
        l = self.comp(fake, f, 'list')
        return self.lib.dict_from_pairs(self, l)

    def comp(self, e, f, kind):
        E = self.E
        gens = e.generators
        its = []
        sub = Frame(E)
        sub.d.update(f.d)
        sub.mod, sub.cls, sub.fref = f.mod, f.cls, f.fref
        it0 = self.iter(self.ev(gens[0].iter, f))

        def rec(k, sub, out):
            """concrete unrolling"""
            if k == len(gens):
                out.append(self.ev(e.elt, sub))
                return
            it = it0 if k == 0 else self.iter(self.ev(gens[k].iter, sub))
            if not isinstance(it.n, int):
                raise NotConcrete(it)
            for j in range(it.n):
                self.assign(gens[k].target, it.fn(IntVal(j)), sub)
                ok = True
                for c in gens[k].ifs:
                    if not self.cond(self.ev(c, sub)):
                        ok = False
                        break
                if ok:
                    rec(k + 1, sub, out)
        if isinstance(it0.n, int) and it0.n <= UNROLL and len(gens) == 1:
            out = []
            rec(0, sub, out)
            return PList.of(E, out)
        if len(gens) == 1:
            def body(i):
                self.assign(gens[0].target, it0.fn(i), sub)
                for c in gens[0].ifs:
                    if not self.cond(self.ev(c, sub)):
                        return (False, None)
                return (True, self.ev(e.elt, sub))
            P, V, _ = self.generic_map(it0.n, body)
            if P is None:
                r = PList.sym(E, it0.n, V, inv=self.inherit_inv(it0, V, gens[0], e))
                r.setpairs(it0, None, V)
                fl = getattr(it0, 'filt', None)
                if fl is not None:
                    def body2(i):
                        if not self.cond(fl[1](i)):
                            return (False, None)
                        self.assign(gens[0].target, fl[2](i), sub)
                        return (True, self.ev(e.elt, sub))
                    P2, V2, _ = self.generic_map(fl[0], body2)
                    r.setfilt(fl[0], fl[1] if P2 is None else P2, V2)
                return r
            n = it0.n
            l = Lambda_b(P)
            inv = None
            if getattr(it0, 'inv', None) is not None and isinstance(e.elt, ast.Name) and isinstance(gens[0].target, ast.Name) and e.elt.id == gens[0].target.id:
                src = it0.inv
                inv = lambda x: Rank(l, zi(n), src(x))
            r = PList.sym(E, Cnt(l, zi(n)), lambda k: V(Sel(l, zi(n), z(k))), inv=inv)
            r.setfilt(n, P, V)
            r.setpairs(it0, P, V)
            E.assume(Cnt(l, zi(n)) >= 0)
            return r
        if len(gens) == 2:
            def body0(i):
                self.assign(gens[0].target, it0.fn(i), sub)
                for c in gens[0].ifs:
                    if not self.cond(self.ev(c, sub)):
                        raise Unsupported('filter in an outer generator')
                it1 = self.iter(self.ev(gens[1].iter, sub))

                def body1(j):
                    self.assign(gens[1].target, it1.fn(j), sub)
                    for c in gens[1].ifs:
                        if not self.cond(self.ev(c, sub)):
                            return (False, None)
                    return (True, self.ev(e.elt, sub))
                P, V, _ = self.generic_map(it1.n, body1, force=True)
                if hasattr(it1, 'has') and getattr(it1, 'inv', None) is not None:
                    tmp = PList.sym(E, 0, V)
                    tmp.setpairs(it1, P, V)
                    if tmp.pairset() is not None:
                        return (True, ('grid', it1.n, P, V, tmp.pairset()))
                return (True, ('grid', it1.n, P, V))
            i0 = Const(E.name('i'), I)
            P0, V0, _ = self.generic_map(it0.n, body0, unmerged=True)
            r = self.lib.grid_list(self, it0.n, V0)
            t0, t1 = gens[0].target, gens[1].target
            if isinstance(e.elt, ast.Tuple) and all(isinstance(t, ast.Name) for t in (t0, t1)) and [getattr(t, 'id', None) for t in e.elt.elts] in ([t0.id, t1.id], [t1.id, t0.id]) and t0.id != t1.id:
                inner = self.iter(self.ev(gens[1].iter, f)) if isinstance(gens[1].iter, (ast.Name, ast.Attribute)) else None
                if getattr(it0, 'inv', None) is not None and getattr(inner, 'inv', None) is not None:
                    swap = e.elt.elts[0].id == t1.id

                    def has(p, it0=it0, it1=inner, V0=V0, swap=swap):
                        a, b = (p[1], p[0]) if swap else (p[0], p[1])
                        i, j = it0.inv(a), it1.inv(b)
                        row = V0(zi(i))
                        return band(inrange(i, it0.n), inrange(j, it1.n), eq(it0.fn(i), a), eq(it1.fn(j), b), row[2](zi(j)) if row[2] is not None else True)
                    r.has = has
            return r
        raise Unsupported('three generators')

    def inherit_inv(self, it, V, g, e):
        if getattr(it, 'inv', None) is not None and isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id:
            return it.inv
        if getattr(it, 'inv', None) is not None:
            # label + suffix: as many different labels as there were
            k = Const(self.E.name('i'), I)
            v, src = V(k), it.fn(k)
            if isz(v) and v.sort() == Lbl and v.decl().name() == 'CAT' and v.arg(0).eq(lab(src)) and not any(t.eq(k) for t in subterms(v.arg(1))):
                from .lib import CAT, UNCAT
                sfx, inv = v.arg(1), it.inv
                a = bvar(Lbl, 'l')
                self.E.assume(ForAll([a], UNCAT(CAT(a, sfx), sfx) == a, patterns=[CAT(a, sfx)]))
                return lambda x: inv(UNCAT(lab(x), sfx))
        return None

    def generic_map(self, n, body, force=False, unmerged=False):
        """evaluate body(i) -> (keep, value) for a generic i in [0,n) without side effects.
        Returns (P or None, V, i0): keep predicate and value as functions of an index term."""
        E = self.E
        i0 = Const(E.name('i'), I)
        nf = len(E.facts)
        E.gvars.append(i0)
        E.facts.append(('f', zb(inrange(i0, n))))
        nf2 = len(E.facts)
        pre = E.snapshot()
        paths = E.explore(lambda: body(i0))
        E.restore(pre)
        E.gvars.pop()
        del E.facts[nf:]
        if not paths:
            # body unreachable: the range is empty
            return None, (lambda k: POISON), i0
        self.no_side_effects(pre, paths)
        E.counter = max(p.snap[4] for p in paths)
        good, fs = [], []
        for p in paths:
            own = p.facts
            if p.out[0] == 'raise':
                c = band(*[x for kx, x in own])
                E.oblige(ForAll([i0], Implies(zb(inrange(i0, n)), Not(zb(c)))), 'no %s raised' % p.out[1])
                continue
            if p.out[0] not in ('ok',):
                raise Unsupported('control flow inside a comprehension')
            fs.append(zb(imp(p.cond(), band(*[x for kx, x in own if kx == 'f']))))
            good.append(p)
        body_f = band(*[x for x in fs if not z3.is_true(x)])
        if body_f is not True:
            E.assume(ForAll([i0], Implies(zb(inrange(i0, n)), zb(body_f))))
        conds = [(p.cond(), p.out[1]) for p in good]
        keep = [(c, kv[0]) for c, kv in conds]
        allkeep = all(k is True for c, k in keep)
        Pc = bor(*[band(c, k) for c, k in keep if k is not False])

        def P(k):
            return subst_val(E, Pc, [(i0, zi(k))]) if isz(Pc) else Pc
        vals = [(c, kv[1]) for c, kv in conds if kv[0] is not False]
        if not vals:
            return (lambda k: False), (lambda k: POISON), i0
        if unmerged and len(vals) > 1:
            raise Unsupported('branching outer generator')

        def V(k):
            out = None
            for c, v in reversed(vals):
                v2 = subst_val(E, v, [(i0, zi(k))])
                if out is None:
                    out = v2
                else:
                    out = merge_val(E, subst_val(E, c, [(i0, zi(k))]) if isz(c) else c, v2, out)
            return out
        if allkeep and not force:
            return None, V, i0
        return P, V, i0

    def no_side_effects(self, pre, paths):
        for p in paths:
            post = {id(o): d for o, d in p.snap[0]}
            for o, d in pre[0]:
                d2 = post.get(id(o))
                if d2 is None:
                    continue
                if isinstance(o, Frame):
                    continue
                for k, v in d2.items():
                    if k not in d or not unchanged(d[k], v):
                        raise Unsupported('side effect on %s.%s inside a comprehension' % (o.kind, k))
            if len(p.snap[5]) != len(pre[5]):
                raise Unsupported('ghost event inside a comprehension')

    # ------------------------------------------------------------------ calls in source
    def e_Call(self, e, f):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == 'print' and 'print' not in f.d:
            return None
        if isinstance(fn, ast.Name) and fn.id == 'super' and not e.args:
            return Opaque('super', cls=f.cls, self_=f.d.get('self'))
        if isinstance(fn, ast.Name) and fn.id == 'super' and len(e.args) == 2:
            return Opaque('super', cls=f.cls, self_=self.ev(e.args[1], f))
        g = self.ev(fn, f)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, f)
                if isinstance(v, tuple):
                    args += list(v)
                else:
                    it = self.iter(v)
                    if isinstance(it.n, int):
                        args += [it.fn(IntVal(k)) for k in range(it.n)]
                    else:
                        args.append(Opaque('star', it=it))
            else:
                args.append(self.ev(a, f))
        for k in e.keywords:
            if k.arg is None:
                kw['**'] = self.ev(k.value, f)
            else:
                kw[k.arg] = self.ev(k.value, f)
        return self.call(g, args, kw)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, f):
        for s in stmts:
            self.stmt(s, f)

    def stmt(self, s, f):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        return m(s, f)

    def s_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, f)

    def s_Pass(self, s, f):
        pass

    def s_Assign(self, s, f):
        v = self.ev(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, f), f)

    def s_AugAssign(self, s, f):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.ev(ast.Name(id=s.target.id, ctx=ast.Load()), f)
            r = self.lib.inplace(self, op, cur, lambda: self.ev(s.value, f))
            if r is not NOASSIGN:
                f.d[s.target.id] = r
            return
        if isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, f)
            cur = self.attr(o, s.target.attr, f)
            r = self.lib.inplace(self, op, cur, lambda: self.ev(s.value, f))
            if r is not NOASSIGN:
                o.set(**{s.target.attr: r})
            return
        o = self.ev(s.target.value, f)
        ix = self.index(s.target.slice, f)
        cur = self.lib.getitem(self, o, ix)
        v = self.ev(s.value, f)
        self.lib.setitem(self, o, ix, self.lib.binop(self, op, cur, v))

    def s_Return(self, s, f):
        raise Ret(None if s.value is None else self.ev(s.value, f))

    def s_If(self, s, f):
        c = self.truth(self.ev(s.test, f))
        if self.E.merging and isz(c) and self.joined(s, c, f):
            return
        if self.cond(c):
            self.block(s.body, f)
        else:
            self.block(s.orelse, f)

    def joined(self, s, c, f):
        """both branches at once, if they only change values that can be joined"""
        E = self.E
        if id(s) in E.nomerge or E.stack is None:
            return False
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.Yield, ast.Try)) for b in s.body + s.orelse for x in ast.walk(b)):
            return False
        c = zb(c)
        pre = E.snapshot()

        def run():
            self.block(s.body if E.branch(c) else s.orelse, f)
        nc = E.nchoose
        paths = E.explore(run)
        if not paths:
            raise Infeasible()
        if any(p.out[0] != 'ok' for p in paths) or E.nchoose != nc:
            E.nomerge.add(id(s))
            return False
        if len(paths) == 1:
            E.commit(paths[0])
            return True
        try:
            E.join(pre, paths)
        except Unsupported as e:
            E.restore(pre)
            E.nomerge.add(id(s))
            return False
        return True

    def s_Raise(self, s, f):
        nm = 'Exception'
        x = s.exc
        if isinstance(x, ast.Call):
            x = x.func
        if isinstance(x, ast.Name):
            nm = x.id
        raise PyRaise(nm)

    def s_Assert(self, s, f):
        if not self.cond(self.ev(s.test, f)):
            raise PyRaise('AssertionError')

    def s_Break(self, s, f):
        raise Brk()

    def s_Continue(self, s, f):
        raise Cont()

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f.d.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.ev(t.value, f), self.index(t.slice, f))
            else:
                raise Unsupported('del')

    def s_Try(self, s, f):
        self.tries += 1
        try:
            try:
                self.block(s.body, f)
            finally:
                self.tries -= 1
        except PyRaise as r:
            for h in s.handlers:
                nm = None if h.type is None else ast.unparse(h.type)
                names = [] if nm is None else [x.strip(' ()').split('.')[-1] for x in nm.split(',')]
                if nm is None or 'Exception' in names or 'BaseException' in names or r.name in names or \
                        (r.name in ('KeyError', 'IndexError') and 'LookupError' in names):
                    if h.name:
                        f.d[h.name] = Opaque('exc', name=r.name)
                    self.block(h.body, f)
                    break
            else:
                self.block(s.finalbody, f)
                raise
        except (Ret, Brk, Cont):
            self.block(s.finalbody, f)
            raise
        else:
            self.block(s.orelse, f)
        self.block(s.finalbody, f)

    def s_With(self, s, f):
        for it in s.items:
            v = self.ev(it.context_expr, f)
            w = self.lib.enter(self, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, w, f)
        self.block(s.body, f)

    def s_FunctionDef(self, s, f):
        f.d[s.name] = Closure(s, f, f.mod)

    def s_Import(self, s, f):
        for a in s.names:
            f.d[(a.asname or a.name).split('.')[0]] = Mod(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, f):
        for a in s.names:
            if s.level:
                f.d[a.asname or a.name] = self.repo.classes.get(a.name) or Mod('unknown.' + a.name)
            else:
                f.d[a.asname or a.name] = Mod(s.module + '.' + a.name)

    def s_For(self, s, f):
        it = self.iter(self.ev(s.iter, f))
        if isinstance(it.n, int) and it.n <= UNROLL and not getattr(it, 'live', None):
            for k in range(it.n):
                self.assign(s.target, it.fn(IntVal(k)), f)
                try:
                    self.block(s.body, f)
                except Brk:
                    return
                except Cont:
                    continue
            self.block(s.orelse, f)
            return
        from . import loops
        loops.sym_for(self, s, it, f)

    def s_While(self, s, f):
        from . import loops
        loops.sym_while(self, s, f)


class NotConcrete(Exception):
    pass


class _NoAssign:
    pass


NOASSIGN = _NoAssign()


def unchanged(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isinstance(a, (int, float, str, bool, Fraction)) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(unchanged(x, y) for x, y in zip(a, b))
    return False


def conc_b(v):
    if isz(v) and v.sort() == B:
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def gt0(n):
    return n > 0 if isinstance(n, int) else n > 0
