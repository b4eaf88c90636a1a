"""Symbolic state: heap objects, facts, path exploration, obligations, loop summaries."""
import ast
import itertools
import z3
from . import terms
from .terms import *
from . import prover
from .prover import prove


class PyRaise(Exception):
    def __init__(self, name, node=None):
        self.name, self.node = name, node


class Infeasible(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class HObj:
    """heap object; everything mutable lives in self.d with immutable values"""
    kind = 'obj'
    frozen = False

    def __init__(self, E, **d):
        self.d = dict(d)
        self.E = E
        E.objs.append(self)

    def join(self, E, pcs, ds):
        """the contents that are ds[i] under pcs[i]"""
        keys = dict.fromkeys(k for d in ds for k in d)
        return {k: join_val(E, pcs, [d.get(k, POISON) for d in ds]) for k in keys}

    def set(self, **kw):
        if self.frozen:
            raise Unsupported('write to a merged object')
        self.d.update(kw)


class Path:
    def __init__(self, out, branches, facts, snap):
        self.out, self.branches, self.facts, self.snap = out, branches, facts, snap

    def cond(self):
        return band(*self.branches)


class Obligation:
    def __init__(self, name, hyps, goal, where):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where
        self.result = None
        self.time = 0.0


class Eng:
    def __init__(self, repo=None, verbose=False):
        self.repo = repo
        self.hints = []         # labels at which facts about enumerated sets are stated explicitly
        self.objs = []
        self.feas = {}
        self.loopmemo = {}
        self.noclosed = {}
        self.facts = []          # list of (kind, term); kind 'b' branch, 'f' fact
        self.gvars = []
        self.counter = 0
        self.dec = []
        self.pos = 0
        self.stack = None
        self.obligations = []
        self.okeys = set()
        self.where = ''
        self.contracts = {}
        self.active = ()         # contracts not used (function under verification)
        self.used_contracts = set()
        self.inlined = set()
        self.lib_used = set()
        self.nanaware = False
        self.default_inv = None
        self.invariants = None   # hook for loops that need them
        self.trace = []          # ghost events (part of state)
        self.verbose = verbose
        self.depth = 0
        self.probing = 0
        self.discovering = 0        # the changed locations of a loop are being determined
        self.maxpaths = 400
        self.merging = False     # joins the two branches of an if where the states can be joined
        self.nomerge = set()
        self.nchoose = 0
        self.witness, self.dimcands, self.binmore, self.concats = [], [], [], []
        self.inpool = False

    # ---------------------------------------------------------------- names and facts
    def name(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    def fresh(self, sort, base='v'):
        n = self.name(base)
        if self.gvars:
            return Function(n, *([g.sort() for g in self.gvars] + [sort]))(*self.gvars)
        return Const(n, sort)

    def freshfn(self, base, *sorts):
        """fresh function symbol (over the generic loop variables too); returns a python callable"""
        n = self.name(base)
        gv = list(self.gvars)
        f = Function(n, *([g.sort() for g in gv] + list(sorts)))
        return lambda *a: f(*gv, *[z(x) for x in a])

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        f = zb(f)
        if z3.is_true(f):
            return
        self.facts.append(('f', f))

    def hyps(self):
        return [f for k, f in self.facts]

    def entails(self, goal, timeout=1500, depth=2):
        goal = zb(goal)
        if z3.is_true(goal):
            return True
        return bool(prove(self.hyps(), goal, timeout, depth))

    def oblige(self, goal, name, assume=True):
        """record a verification condition (and rely on it afterwards)"""
        if goal is True or (isz(goal) and z3.is_true(goal)):
            if not self.probing:
                key = (name, self.where, 'trivial')
                if key not in self.okeys:
                    self.okeys.add(key)
                    o = Obligation(name, [], BoolVal(True), self.where)
                    self.obligations.append(o)
            return
        goal = zb(goal)
        if not self.probing:
            h = self.hyps()
            key = (name, goal.get_id(), frozenset(x.get_id() for x in h))
            if key not in self.okeys:
                self.okeys.add(key)
                self.obligations.append(Obligation(name, h, goal, self.where))
        if assume:
            self.assume(goal)

    # ---------------------------------------------------------------- exploration
    def snapshot(self):
        return ([(o, dict(o.d)) for o in self.objs], len(self.objs), list(self.facts), list(self.gvars), self.counter, list(self.trace))

    def restore(self, s):
        for o, d in s[0]:
            o.d = dict(d)
        self.objs = [o for o, d in s[0]]
        self.facts = list(s[2])
        self.gvars = list(s[3])
        self.counter = s[4]
        self.trace = list(s[5])

    def branch(self, cond):
        cond = conc(simp(zb(cond))) if isz(cond) else cond
        if isinstance(cond, bool):
            return cond
        if self.stack is None:
            raise Unsupported('branch outside exploration')
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
        else:
            h = self.hyps()
            ft = self.feasible(h, cond)
            ff = self.feasible(h, Not(cond))
            if not ft and not ff:
                raise Infeasible()
            if ft and ff:
                d = (True, False)
                self.stack.append(self.dec[:self.pos] + [(False, False)])
                self.npaths[0] += 1
                if self.npaths[0] > self.maxpaths:
                    raise Unsupported('too many paths')
            else:
                d = (ft, True)
            self.dec = self.dec[:self.pos] + [d]
            self.pos += 1
        val = d[0]
        self.facts.append(('b' if not d[1] else 'b', cond if val else bnot(cond)))
        return val

    def feasible(self, h, c):
        """False only if h and c are contradictory"""
        fs = [x for x in h] + [c]
        if any(prover.has_binder(x) for x in [c]):
            return True
        key = (frozenset(x.get_id() for x in h), c.get_id())
        if key not in self.feas:
            self.feas[key] = (self.feasible1(fs), fs)       # the terms are kept, so that their ids stay valid
        return self.feas[key][0]

    def feasible1(self, fs):
        qf = [x for x in fs if not prover.has_quant(x)]
        if prover.z3check(prover.abstract(qf), 150) == 'unsat':
            return False
        if prover.z3check(prover.abstract(fs), 120) == 'unsat':
            return False
        return True

    def choose(self, k):
        """nondeterministic choice among k alternatives"""
        self.nchoose += 1
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            return d[0]
        for j in range(1, k):
            self.stack.append(self.dec[:self.pos] + [(j, False)])
            self.npaths[0] += 1
        self.dec = self.dec[:self.pos] + [(0, False)]
        self.pos += 1
        return 0

    def explore(self, fn):
        """run fn on every path from the current state; the state is restored afterwards"""
        snap = self.snapshot()
        nf = len(self.facts)
        outer = (self.dec, self.pos, self.stack, getattr(self, 'npaths', [0]))
        self.stack = [[]]
        self.npaths = [1]
        res = []
        # paths from the start of the function: the common prefix produces the same terms again
        top = outer[2] is None
        bv0 = bvm = terms._bv[0]
        try:
            while self.stack:
                pre = self.stack.pop()
                self.restore(snap)
                if top:
                    bvm = max(bvm, terms._bv[0])
                    terms._bv[0] = bv0
                self.dec, self.pos = list(pre), 0
                try:
                    out = ('ok', fn())
                except Ret as r:
                    out = ('ret', r.v)
                except Brk:
                    out = ('brk', None)
                except Cont:
                    out = ('ok', None)
                except PyRaise as r:
                    out = ('raise', r.name)
                except Infeasible:
                    continue
                newf = self.facts[nf:]
                res.append(Path(out, [f for k, f in newf if k == 'b'], newf, self.snapshot()))
        finally:
            self.restore(snap)
            terms._bv[0] = max(bvm, terms._bv[0])
            self.dec, self.pos, self.stack, self.npaths = outer
        return res

    def commit(self, path):
        self.restore(path.snap)

    def join(self, pre, paths):
        """the state after one of several paths from the present state (pre), none of which leaves: values chosen by the path conditions"""
        nf = len(pre[2])
        common = set.intersection(*[{f.get_id() for k, f in p.facts if k != 'b'} for p in paths])
        pcs = []
        top = max(p.snap[4] for p in paths)
        self.counter = max(self.counter, top)
        add = []
        for p in paths:
            pc = z3.And(*p.branches) if len(p.branches) > 1 else p.branches[0] if p.branches else BoolVal(True)
            b = self.fresh(B, 'taken')
            add += [Implies(b, pc), Implies(pc, b)]
            pc = b
            pcs.append(pc)
        prover.group(pcs)
        done = set()
        for p, pc in zip(paths, pcs):
            for k, f in p.facts:
                if k == 'b':
                    continue
                if f.get_id() in common:
                    if f.get_id() not in done:
                        done.add(f.get_id())
                        add.append(f)
                else:
                    add.append(guard(pc, f))
        add.append(z3.Or(*pcs))
        known = {id(o): d for o, d in pre[0]}
        states = [{id(o): d for o, d in p.snap[0]} for p in paths]
        new = {}
        for o, d in pre[0]:
            ds = [s.get(id(o)) for s in states]
            if any(x is None for x in ds):
                raise Unsupported('join')
            if all(len(x) == len(ds[0]) and all(k in ds[0] and x[k] is ds[0][k] for k in x) for x in ds[1:]):
                new[id(o)] = dict(ds[0])
                continue
            new[id(o)] = o.join(self, pcs, ds)
        objs = list(pre[0])
        seen = set(known)
        for p in paths:
            for o, d in p.snap[0]:
                if id(o) not in seen:
                    seen.add(id(o))
                    objs.append((o, d))
        self.objs = [o for o, d in objs]
        for o, d in objs:
            o.d = new[id(o)] if id(o) in new else dict(d)
        self.facts = list(pre[2])
        for f in add:
            self.facts.append(('f', f))


# ------------------------------------------------------------------------- structural operations on values

def subst_val(E, v, pairs):
    """substitute constants in a value (objects are copied, frozen)"""
    if isz(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, (int, float, Fraction, bool, str)) or v is None or v is POISON:
        return v
    if isinstance(v, tuple):
        return tuple(subst_val(E, x, pairs) for x in v)
    if isinstance(v, HObj):
        return v.substituted(E, pairs)
    if hasattr(v, 'substituted'):
        return v.substituted(E, pairs)
    if callable(v):
        return lambda *a, v=v: subst_val(E, v(*a), pairs)
    return v


def merge_val(E, c, a, b):
    """if c then a else b"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is POISON or b is POISON:
        return POISON
    if isinstance(a, (int, float, Fraction, bool)) or isz(a) or isinstance(a, str):
        if isinstance(b, (int, float, Fraction, bool)) or isz(b) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str) and a == b:
                return a
            return ite(c, a, b)
        raise Unsupported('merge %r / %r' % (a, b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(E, c, x, y) for x, y in zip(a, b))
    if a is None and b is None:
        return None
    if isinstance(a, HObj) and isinstance(b, HObj) and type(a) is type(b):
        return a.merged(E, c, b)
    if hasattr(a, 'merged') and type(a) is type(b):
        return a.merged(E, c, b)
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))


def guard(pc, f):
    """pc implies f, with the quantifiers of f outside"""
    if z3.is_quantifier(f) and f.is_forall():
        vs = [terms.bvar(f.var_sort(i), 'g') for i in range(f.num_vars())]
        body = z3.substitute_vars(f.body(), *reversed(vs))
        pats = []
        for i in range(f.num_patterns()):
            ts = [z3.substitute_vars(t, *reversed(vs)) for t in f.pattern(i).children()]
            pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
        return z3.ForAll(vs, guard(pc, body), patterns=pats)
    if z3.is_and(f):
        return z3.And(*[guard(pc, x) for x in f.children()])
    return Implies(pc, f)


def join_val(E, pcs, vs):
    v = vs[-1]
    for c, x in zip(pcs[-2::-1], vs[-2::-1]):
        if x is v or isz(x) and isz(v) and x.eq(v):
            continue
        if isinstance(x, (HObj, type(None))) or isinstance(v, (HObj, type(None))):
            if x is not POISON and v is not POISON:
                raise Unsupported('join of references')
        if type(x) is bool and type(v) is bool and x == v or isinstance(x, str) and isinstance(v, str) and x == v:
            continue
        if callable(x) and callable(v) and not isz(x):
            v = (lambda c, f, g: lambda *a: merge_val(E, c, f(*a), g(*a)))(c, x, v)
            continue
        v = merge_val(E, c, x, v)
    return v


def size(n):
    return conc(n)
