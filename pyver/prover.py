"""Discharging one verification condition: hyps |= goal.

z3 decides the first-order core; the binder symbols of terms.py are given meaning by the rules below, each a
theorem about finite sums/products/selections (proved by induction on the length; the inductive proofs are
themselves discharged in lemmas.py):

  ext      equal lengths and pointwise equal bodies      => equal binder applications
  unit     n <= 0                                        => empty sum/product/count/any
  any      Any(f,n) <=> exists k in [0,n) f(k)
  shift    n == m+1, f(k+1) == g(k) for k<m              => Sum(f,n) = f(0)+Sum(g,m)   (same for products)
  radix    f(j) == d(j)*Prod(c,j), 0<=d(j)<c(j) for j<n  => 0 <= Sum(f,n) < Prod(c,n)
  sel      Sel/Rank are the increasing enumeration of {k<n : f(k)} and its inverse, Cnt its size
  nonneg   f(k) >= 0 for k<n                             => Sum(f,n) >= 0
  pos      f(k) >= 1 for k<n                             => Prod(f,n) >= 1
  linear   Sum(c*f) = c*Sum(f), Sum(f+g) = Sum(f)+Sum(g)
"""
import os
import threading
import time
import gc
import itertools
import z3
from .terms import *

STATS = {'queries': 0, 'time': 0.0}


class Fresh:
    n = 0
    memo = {}


def fresh(sort, base='w'):
    Fresh.n += 1
    return Const('%s#%d' % (base, Fresh.n), sort)


def fresh_for(key, asts, sort, base='w'):
    """the same constant every time the same question is asked (so that proofs can be cached)"""
    k = (base, sort.name(), key) + tuple(a.get_id() for a in asts)
    if k not in Fresh.memo:
        Fresh.memo[k] = (fresh(sort, base), asts)
    return Fresh.memo[k][0]


class Watch:
    """interrupts a query that outlives its time limit (the solver's own timer is sometimes lost)"""
    pid, deadline, lock = None, None, None


# terms must be released by the main thread only: no cyclic collection while the watching thread may run
gc.disable()


def _watch():
    ctx = z3.main_ctx()
    while True:
        time.sleep(0.05)
        with Watch.lock:
            if Watch.deadline is not None and time.time() > Watch.deadline:
                ctx.interrupt()


def guarded(s, timeout):
    if Watch.pid != os.getpid():
        Watch.pid, Watch.lock = os.getpid(), threading.Lock()
        threading.Thread(target=_watch, daemon=True).start()
    with Watch.lock:
        Watch.deadline = time.time() + timeout / 1000 * 10 + 0.5
    try:
        return s.check()
    except z3.Z3Exception:
        return z3.unknown
    finally:
        with Watch.lock:
            Watch.deadline = None


TRACE = bool(__import__('os').environ.get('VERIF_TRACE'))


def z3check(fs, timeout, want_model=False, opts=None):
    """unsat / sat / unknown; queries that are not answered at once are tried again with another order of the facts"""
    seen, gs = set(), []
    for f in fs:
        if f.get_id() not in seen and not z3.is_true(f):
            seen.add(f.get_id())
            gs.append(f)
    n = len(gs)
    plans = [(gs, opts or {}, timeout)]
    if timeout >= 600 and n > 6:
        plans = [(gs, {}, timeout * 2 // 5), (gs[::-1], {'random_seed': 5}, timeout // 5), (gs[1::2] + gs[::2], {'random_seed': 11, 'auto_config': False, 'arith.solver': 2}, timeout * 3 // 20),
                 (gs[n // 2:] + gs[:n // 2], {'random_seed': 23, 'relevancy': 0}, timeout * 3 // 20), (gs[::3] + gs[1::3] + gs[2::3], {'random_seed': 31, 'qi.eager_threshold': 20.0}, timeout // 10)]
        if MBQI[0]:
            plans.insert(1, (gs, None, timeout * 2 // 5))
    for hs, opts, to in plans:
        r, s = z3once(hs, to, opts)
        if r != z3.unknown:
            break
    if want_model:
        return str(r), (s.model() if r == z3.sat else None), (s.reason_unknown() if r == z3.unknown else '')
    return str(r)


MBQI = [False]      # the default strategy (with model-based instantiation) can crash: only in processes that may die
ATTEMPT = [0]       # raised when a process is started again after a crash of the solver, so that the same query is put differently


_strategies = {}
z3.set_param('smt.mbqi.id', 'none')      # no quantifier takes part in model-based instantiation, whatever a strategy sets


def strategy(opts):
    k = tuple(sorted(opts.items()))
    if k not in _strategies:
        _strategies[k] = z3.Then('simplify', 'propagate-values', z3.With(z3.Tactic('smt'), mbqi=False, **opts))
    return _strategies[k]


def z3once(fs, timeout, opts):
    t0 = time.time()
    if ATTEMPT[0]:
        opts, fs = dict({'random_seed': 41 * ATTEMPT[0]}, **opts or {}), fs[ATTEMPT[0]:] + fs[:ATTEMPT[0]]
    z3.set_param('smt.mbqi.id', '' if opts is None else 'none')
    s = z3.Solver() if opts is None else strategy(opts).solver()
    # limits in solver steps (about 2000 per millisecond), so that answers do not depend on the load of the machine
    s.set('rlimit', max(50, int(timeout)) * 2000)
    s.set('timeout', max(50, int(timeout)) * 8)
    for f in fs:
        s.add(f)
    if _distinct():
        s.add(_distinct())
    r = guarded(s, timeout)
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    return r, s


def _distinct():
    from . import terms
    cs = list(terms._strs.values())
    return [z3.Distinct(*cs)] if len(cs) > 1 else []


def split_goal(hyps, goal, depth=0):
    """list of (hyps, goal) with quantifiers introduced, implications and conjunctions split"""
    goal = zb(goal)
    out = []
    work = [(list(hyps), goal)]
    while work:
        h, g = work.pop()
        if z3.is_true(g):
            continue
        if z3.is_quantifier(g) and g.is_forall():
            vs = [fresh_for(('all', depth, k), [g], g.var_sort(k), g.var_name(k).split('@')[0]) for k in range(g.num_vars())]
            work.append((h, z3.substitute_vars(g.body(), *reversed(vs))))
            continue
        if z3.is_app(g):
            k = g.decl().kind()
            if k == z3.Z3_OP_AND:
                for c in reversed(g.children()):
                    work.append((list(h), c))
                continue
            if k == z3.Z3_OP_IMPLIES:
                work.append((h + flat(g.arg(0)), g.arg(1)))
                continue
            if k == z3.Z3_OP_NOT:
                a = g.arg(0)
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_OR:
                    for c in reversed(a.children()):
                        work.append((list(h), bnot(c)))
                    continue
                if z3.is_quantifier(a) and a.is_exists():
                    vs = [fresh_for(('ex', depth, k2), [a], a.var_sort(k2), 'e') for k2 in range(a.num_vars())]
                    work.append((h, bnot(z3.substitute_vars(a.body(), *reversed(vs)))))
                    continue
            if k == z3.Z3_OP_OR:
                ch = g.children()
                # P or Q : assume not P, prove Q (Q the last non-literal disjunct)
                negs = [c for c in ch if z3.is_not(c) or (z3.is_app(c) and c.num_args() <= 2 and not has_binder(c) and not z3.is_quantifier(c))]
                rest = [c for c in ch if not any(c.eq(n) for n in negs)]
                if negs and rest and len(rest) == 1:
                    hh = list(h)
                    for n in negs:
                        hh += flat(bnot(n))
                    work.append((hh, rest[0]))
                    continue
            if k == z3.Z3_OP_EQ and g.arg(0).sort() == B and (has_binder(g) or has_quant(g)):
                a, b = g.arg(0), g.arg(1)
                work.append((h + flat(a), b))
                work.append((h + flat(b), a))
                continue
        out.append((h, g))
    return out


def flat(f):
    f = zb(f)
    if z3.is_and(f):
        r = []
        for c in f.children():
            r += flat(c)
        return r
    if z3.is_not(f) and z3.is_or(f.arg(0)):
        r = []
        for c in f.arg(0).children():
            r += flat(bnot(c))
        return r
    if z3.is_not(f) and z3.is_not(f.arg(0)):
        return flat(f.arg(0).arg(0))
    return [f]


def has_binder(t):
    for s in all_subterms(t):
        if z3.is_app(s) and s.decl().name() in BNAMES:
            return True
    return False


def has_quant(t):
    return any(z3.is_quantifier(s) for s in all_subterms(t))


def binder_apps(ts):
    seen = set()
    out = []
    for t in ts:
        for s in subterms(t, seen):
            if z3.is_app(s) and s.decl().name() in BNAMES:
                out.append(s)
    return out


class Result:
    def __init__(self, status, why='', model=None, sub=None):
        self.status, self.why, self.model, self.sub = status, why, model, sub

    def __bool__(self):
        return self.status == 'proved'

    def __repr__(self):
        return '<%s %s>' % (self.status, self.why)


_cache = {}


GROUPS = {}       # name of a constant -> the constants of its group: exactly one of them is true


def group(cs):
    for c in cs:
        GROUPS[c.decl().name()] = (int(cs[0].decl().name().split('!')[-1]), tuple(cs))


def find_group(ts):
    best = None
    for t in ts:
        for x in all_subterms(t):
            if z3.is_app(x) and x.num_args() == 0 and x.decl().name() in GROUPS:
                g = GROUPS[x.decl().name()]
                if best is None or g[0] > best[0]:
                    best = g
    return best


def under(f, sub):
    """f with some Boolean constants decided"""
    f = z3.substitute(f, *sub)
    if z3.is_implies(f):
        if z3.is_true(f.arg(0)):
            return f.arg(1)
        if z3.is_false(f.arg(0)):
            return BoolVal(True)
    return f


def prove(hyps, goal, timeout=4000, depth=3, splits=9):
    """Result for hyps |= goal"""
    if goal is True:
        return Result('proved')
    hyps = [zb(x) for x in hyps if x is not True]
    gr = find_group([goal]) or find_group(hyps) if GROUPS and isz(goal) and splits > 0 and timeout >= 600 else None
    if gr is None:
        return prove0(hyps, goal, timeout, depth)
    raw = hyps + [Not(zb(goal))]
    if z3check(raw, 400) == 'unsat' or z3check(raw, 400, opts={'auto_config': False, 'arith.solver': 2}) == 'unsat':
        return Result('proved')
    if splits == 9:
        r = prove0(hyps, goal, 590, depth)
        if r or r.status == 'refuted':
            return r
    for c in gr[1]:
        sub = [(x, BoolVal(x.eq(c))) for x in gr[1]]
        hs = [h for h in (under(h, sub) for h in hyps) if not z3.is_true(h)]
        r = prove(hs, under(goal, sub), timeout, depth, splits - 1)
        if not r:
            return r
    return Result('proved')


def prove0(hyps, goal, timeout=4000, depth=3):
    for h, g in split_goal([zb(x) for x in hyps if x is not True], goal, depth):
        r = prove1(h, g, timeout, depth)
        if not r:
            return r
    return Result('proved')


def prove1(h, g, timeout, depth):
    if any(x.eq(g) for x in h):
        return Result('proved')
    key = (frozenset(x.get_id() for x in h), g.get_id(), depth)
    if key in _cache:
        return _cache[key][0]
    r = _prove1(h, g, timeout, depth)
    _cache[key] = (r, h, g)       # keep the ASTs alive so that the ids stay valid
    return r


_lams = {}


def namelam(l):
    """constant standing for the array l where it is an argument of a selection (keeps lambdas out of patterns)"""
    if not (z3.is_quantifier(l) and l.is_lambda()):
        return l
    k = l.get_id()
    if k not in _lams:
        _lams[k] = (l, Const('lam~%d' % k, l.sort()))
    return _lams[k][1]


_deep = {}


def deep_apps(ts):
    """binder applications under quantifiers whose lambda and length are closed"""
    out = {}
    for t in ts:
        k = t.get_id()
        if k not in _deep:
            r = []
            if has_quant(t):
                seen, stack = set(), [t]
                while stack:
                    x = stack.pop()
                    if x.get_id() in seen:
                        continue
                    seen.add(x.get_id())
                    if z3.is_quantifier(x):
                        if not x.is_lambda():
                            stack.append(x.body())
                        continue
                    if z3.is_app(x) and x.decl().name() in BNAMES and closed(x.arg(0)) and closed(x.arg(1)):
                        r.append(x)
                    stack.extend(x.children())
            _deep[k] = (r, t)
        for a in _deep[k][0]:
            out[a.get_id()] = a
    return list(out.values())


def abstract(fs):
    """replace the ground binder applications by constants (their meaning is already in the rule instances)"""
    subs = {}
    for a in binder_apps(fs) + deep_apps(fs):
        if closed(a):
            subs[a.get_id()] = (a, Const('bind~%d' % a.get_id(), a.sort()))
        elif a.decl().arity() > 2 and closed(a.arg(0)):
            subs[a.get_id()] = (a, None)
    if not subs:
        return fs
    keep = {k for k, (a, c) in subs.items() if a.decl().arity() > 2}
    # selections are applied to varying indexes under quantifiers: keep them as functions
    pairs = [p for k, p in subs.items() if k not in keep]
    pairs.sort(key=lambda p: -len(p[0].sexpr()) if len(pairs) < 40 else 0)
    out = [z3.substitute(f, *pairs) for f in fs] if pairs else fs
    lams = {}
    for k in keep:
        l = subs[k][0].arg(0)
        if z3.is_quantifier(l):
            lams[l.get_id()] = (l, namelam(l))
            l2 = z3.substitute(l, *pairs) if pairs else l
            lams[l2.get_id()] = (l2, namelam(l))
    return [z3.substitute(f, *lams.values()) for f in out] if lams else out


def qf(fs):
    return [f for f in fs if not has_quant(f)]


def monomial_split(t, m):
    """(a, r) with t = a*m + r: the monomials of t that have the factor m, and the others"""
    t = z3.simplify(t, som=True)
    ms = t.children() if z3.is_add(t) else [t]
    a, r = [], []
    for x in ms:
        fs = []

        def go(y):
            if z3.is_mul(y):
                for c in y.children():
                    go(c)
            elif z3.is_app(y) and y.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(y.arg(1)) and y.arg(1).as_long() <= 4:
                for _ in range(y.arg(1).as_long()):
                    go(y.arg(0))
            else:
                fs.append(y)
        go(x)
        k = next((i for i, f in enumerate(fs) if f.eq(m)), None)
        if k is None:
            r.append(x)
        else:
            rest = fs[:k] + fs[k + 1:]
            v = rest[0] if rest else IntVal(1)
            for y in rest[1:]:
                v = v * y
            a.append(v)
    add = lambda l: z3.Sum(l) if len(l) > 1 else l[0] if l else IntVal(0)
    return add(a), add(r), bool(a)


_fv = {}


def maxfree(t):
    """largest free de Bruijn index of t plus one (0: closed)"""
    k = t.get_id()
    if k not in _fv:
        if z3.is_var(t):
            r = z3.get_var_index(t) + 1
        elif z3.is_quantifier(t):
            r = max(0, maxfree(t.body()) - t.num_vars())
        else:
            r = max([maxfree(c) for c in t.children()], default=0)
        _fv[k] = (r, t)
    return _fv[k][0]


def closed(t):
    return maxfree(t) == 0


def div_terms(g):
    """closed quotients and remainders of g, also inside the bodies of binders"""
    return [t for t in all_subterms(g) if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and not z3.is_int_value(t.arg(1)) and closed(t)]


def has_div(g):
    return any(z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and not z3.is_int_value(t.arg(1)) for t in all_subterms(g))


def size(t):
    return len(t.sexpr())


_norms = {}


def reduce_divs(hs, g, level=0):
    """(a*m + r) div m = a and (a*m + r) mod m = r where the hypotheses give 0 <= r < m; in the closed terms of g and,
    with the index range of the binder as a further hypothesis, in the bodies of its binders"""
    tried = set()
    quick = None
    for _ in range(12):
        hit = None
        for t in div_terms(g):
            if t.get_id() not in tried:
                if hit is None or size(t) < size(hit):
                    hit = t
        if hit is None:
            break
        tried.add(hit.get_id())
        _keep.append(hit)
        t, m = hit.arg(0), hit.arg(1)
        a, r, some = monomial_split(t, m)
        if not some and not has_quant(r) and has_binder(r):
            continue
        if quick is None:
            quick = qf(hs)
            quick = quick + unit_facts(quick)
        if z3check(linear_core(abstract(quick + [Not(And(0 <= r, r < m))])), 200) == 'unsat':
            g = z3.substitute(g, (hit, a if hit.decl().kind() == z3.Z3_OP_IDIV else r))
    if level < 3:
        for b in outer_binders(g):
            l, n = b.arg(0), b.arg(1)
            if not (z3.is_quantifier(l) and l.is_lambda() and has_div(l.body())):
                continue
            j = fresh_for(('norm', level), [l, n], I, 'x')
            body = beta(l, j)
            b2 = reduce_divs(hs + [0 <= j, j < n], body, level + 1)
            if not b2.eq(body):
                _keep.append(b)
                l2 = Lambda([j], b2)
                g = z3.substitute(g, (b, b.decl()(l2, *b.children()[1:])))
    return g


def outer_binders(g):
    """closed binder applications of g that are not inside another binder's body"""
    out, seen = [], set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return
        if z3.is_app(t):
            if t.decl().name() in BNAMES:
                if closed_binder(t):
                    out.append(t)
            for c in t.children():
                go(c)
    go(g)
    return out


def closed_binder(t):
    return not z3.is_quantifier(t)


_keep = []


def conjuncts(c):
    return [x for k in c.children() for x in conjuncts(k)] if z3.is_and(c) else [c]


def resolve_ites(hs, g):
    """replace closed conditions (or conjuncts of conditions) of the conditionals of the goal that the hypotheses decide"""
    tried = set()
    for _ in range(40):
        hit = None
        for t in all_subterms(g):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                for c in conjuncts(t.arg(0)):
                    if c.get_id() not in tried and not z3.is_true(c) and not z3.is_false(c) and closed(c):
                        if hit is None or size(c) < size(hit):
                            hit = c
        if hit is None:
            return drop_ites(g, {})
        tried.add(hit.get_id())
        _keep.append(hit)
        r = None
        if prove(hs, hit, 300, 0):
            r = True
        elif prove(hs, Not(hit), 300, 0):
            r = False
        if r is not None:
            g = drop_ites(z3.substitute(g, (hit, BoolVal(r))), {})
    return g


def linearize(t, level=0, memo=None):
    """Sum(c*f + g) = c*Sum(f) + Sum(g) for c free of the index, inside out (theorem about finite sums; real sums only)"""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo:
        return memo[k][0]
    r = t
    if z3.is_app(t) and t.num_args() and has_binder(t):
        if t.decl().name() == 'SumR':
            j = Const('.lin%d' % level, I)
            body = linearize(beta(t.arg(0), j), level + 1, {})
            n = linearize(t.arg(1), level, memo)
            parts = []
            todo = additive(body)
            while todo:
                a = todo.pop(0)
                fs = []
                for f in factors(a):
                    if z3.is_div(f) and not mentions(f.arg(1), [j]) and not z3.is_rational_value(f.arg(1)):
                        fs += factors(f.arg(0)) + [RealVal(1) / f.arg(1)]
                    else:
                        fs.append(f)
                at = next((f for f in fs if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE and point_of(f.arg(0), j) is not None), None)
                if at is not None:
                    # Sum(If(j = t, x, y)) = Sum(y) + (x - y at t, if t is in the range)
                    t_, rest = point_of(at.arg(0), j), z3.Product([f for f in fs if f is not at]) if len(fs) > 1 else RealVal(1)
                    todo += additive(rest * at.arg(2))
                    d = z3.substitute(rest * (at.arg(1) - at.arg(2)), (j, t_))
                    parts.append(If(And(0 <= t_, t_ < n), d, RealVal(0)))
                    continue
                out, inn = [], []
                for f in fs:
                    (inn if mentions(f, [j]) else out).append(f)
                f = inn[0] if inn else RealVal(1)
                for x in inn[1:]:
                    f = f * x
                if not inn:
                    p = If(n >= 0, z3.ToReal(n), RealVal(0))
                else:
                    p = SumR(Lambda([j], f), n)
                for x in out:
                    p = x * p
                parts.append(p)
            r = z3.simplify(z3.Sum(parts), som=True) if parts else RealVal(0)
        else:
            cs = [linearize(c, level, memo) for c in t.children()]
            if any(not x.eq(y) for x, y in zip(cs, t.children())):
                r = t.decl()(*cs)
    memo[k] = (r, t)
    return r


def point_of(c, j):
    """t when c is j = t with t free of j"""
    if z3.is_eq(c) and c.arg(0).sort() == I:
        for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if a.eq(j) and not mentions(b, [j]):
                return b
    return None


def has_point(t):
    """a sum with a conditional on its index being some given one"""
    j = Const('.pt', I)
    b = beta(t.arg(0), j)
    return any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and point_of(x.arg(0), j) is not None for x in subterms(b))


def no_quotients(hs, d, timeout):
    """d times its denominators b (those with hs |= b != 0), as a polynomial"""
    d = z3.simplify(resolve_ites(hs, d == 0).arg(0), som=True)
    for _ in range(3):
        b = next((f.arg(1) for a in addends(d) for f in factors(a) if z3.is_div(f) and not z3.is_rational_value(f.arg(1)) and not maxfree(f)), None)
        if b is None or not prove(hs, b != 0, timeout, 1):
            break
        parts = []
        for a in addends(d):
            fs = factors(a)
            q = next((f for f in fs if z3.is_div(f) and f.arg(1).eq(b)), None)
            parts.append(z3.Product([f for f in fs if f is not q] + [q.arg(0)]) if q is not None else a * b)
        d = z3.simplify(resolve_ites(hs, z3.simplify(z3.Sum(parts), som=True) == 0).arg(0), som=True)
    return d


def additive(b):
    """addends of a real term; conditionals with a zero branch are split over the addends of the other"""
    out = []
    for a in addends(z3.simplify(b, som=True)):
        if z3.is_rational_value(a) and a.numerator_as_long() == 0:
            continue
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = a.children()
            zx, zy = [z3.is_rational_value(v) and v.numerator_as_long() == 0 for v in (x, y)]
            if zx or zy:
                for p in additive(y if zx else x):
                    co, rest = RealVal(1), p
                    fs = factors(p)
                    if z3.is_rational_value(fs[0]):
                        co, rest = fs[0], z3.simplify(p / fs[0]) if len(fs) > 1 else RealVal(1)
                    w = If(c, RealVal(0), rest) if zx else If(c, rest, RealVal(0))
                    w = z3.simplify(w)
                    out.append(w if co.eq(RealVal(1)) else co * w)
                continue
        out.append(a)
    return out


def factors(t):
    return [x for c in t.children() for x in factors(c)] if z3.is_mul(t) else [t]


def cancel(a, b):
    """a == b without the addends they share"""
    l, r = addends(a), addends(b)
    for x in list(l):
        k = next((i for i, y in enumerate(r) if y.eq(x)), None)
        if k is not None:
            del r[k]
            l = [y for y in l if y is not x]
    add = lambda v: z3.Sum(v) if len(v) > 1 else v[0] if v else IntVal(0)
    return add(l) == add(r)


def addends(t):
    return [x for c in t.children() for x in addends(c)] if z3.is_add(t) else [t]


def drop_ites(t, memo):
    """propagate truth values through conjunctions and conditionals"""
    k = t.get_id()
    if k in memo:
        return memo[k][0]
    r = t
    if z3.is_quantifier(t):
        if t.is_lambda() and t.num_vars() == 1:
            j = fresh(t.var_sort(0), t.var_name(0).split('@')[0].split('#')[0])
            b = beta(t, j)
            b2 = drop_ites(b, {})
            if not b2.eq(b):
                r = Lambda([j], b2)
    elif z3.is_app(t) and t.num_args():
        cs = [drop_ites(c, memo) for c in t.children()]
        kd = t.decl().kind()
        if kd == z3.Z3_OP_AND:
            r = zb(band(*cs))
        elif kd == z3.Z3_OP_ITE and z3.is_true(cs[0]):
            r = cs[1]
        elif kd == z3.Z3_OP_ITE and z3.is_false(cs[0]):
            r = cs[2]
        elif any(not x.eq(y) for x, y in zip(cs, t.children())):
            r = t.decl()(*cs)
        if kd == z3.Z3_OP_EQ and cs[0].sort() == I and z3.is_add(cs[0]) and z3.is_add(cs[1]):
            r = cancel(cs[0], cs[1])
    memo[k] = (r, t)
    return r


_split = [0]
_lin = [False]


def split_cond(g):
    """condition of a conditional that is a factor of a product (or an argument of one): decided by case analysis"""
    for t in subterms(g):
        if z3.is_mul(t):
            for x in subterms(t):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not has_binder(x.arg(0)):
                    return x.arg(0)
    if z3.is_eq(g):
        for x in subterms(g):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_eq(x.arg(0)) and not has_binder(x.arg(0)) and not (z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2))):
                return x.arg(0)
    return None


def put_cond(g, c, v):
    subs = [(t, t.arg(1) if v else t.arg(2)) for t in subterms(g) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.arg(0).eq(c)]
    for _ in range(6):
        subs = [(t, t.arg(1) if v else t.arg(2)) for t in subterms(g) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.arg(0).eq(c)]
        if not subs:
            return g
        g = z3.substitute(g, *subs)
    return g


def all_closed_ites(g):
    return any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE for t in subterms(g))


def _prove1(h, g, timeout, depth):
    hs = []
    for x in h:
        hs += flat(x)
    if has_div(g):
        g2 = reduce_divs(hs, g)
        if not g2.eq(g):
            return prove(hs, z3.simplify(g2), timeout, depth)
    if depth > 0 and has_binder(g) and all_closed_ites(g):
        g2 = resolve_ites(hs, g)
        if not g2.eq(g):
            return prove(hs, z3.simplify(g2) if False else g2, timeout, depth)
    if z3.is_eq(g) and g.arg(0).sort() == R and any(a.decl().name() == 'SumR' for a in binder_apps([g])):
        d = z3.simplify(linearize(g.arg(0)) - linearize(g.arg(1)), som=True)
        if depth > 1 and any(z3.is_div(t) and not z3.is_rational_value(t.arg(1)) for t in all_subterms(d) if z3.is_app(t)):
            g1 = resolve_ites(hs, g)
            d = z3.simplify(linearize(g1.arg(0)) - linearize(g1.arg(1)), som=True) if z3.is_eq(g1) else d
            d = no_quotients(hs, d, timeout)
        ls = addends(d)
        if z3.is_rational_value(d):
            g2 = BoolVal(d.numerator_as_long() == 0)
        else:
            pos, neg = [], []
            for a in ls:
                f = factors(a)
                (neg if z3.is_rational_value(f[0]) and f[0].numerator_as_long() < 0 else pos).append(a)
            g2 = z3.Sum(pos) == z3.Sum([-a for a in neg]) if neg and pos else d == 0
            g2 = z3.simplify(g2) if not pos or not neg else z3.Sum(pos) == z3.simplify(z3.Sum([-a for a in neg]))
        if z3.is_true(g2):
            return Result('proved')
        if not _lin[0] and not g2.eq(g):
            _lin[0] = True
            try:
                r = prove(hs, g2, timeout, depth)
                if r:
                    return r
            finally:
                _lin[0] = False
    if depth > 1 and not z3.is_eq(g) and has_binder(g) and any(has_point(t) for t in all_subterms(g) if z3.is_app(t) and t.decl().name() == 'SumR'):
        g2 = linearize(g)
        if not g2.eq(g):
            r = prove(hs, resolve_ites(hs, g2), timeout, depth)
            if r:
                return r
    if has_binder(g) and _split[0] < 3:
        c = split_cond(g)
        if c is not None:
            _split[0] += 1
            try:
                r = prove(hs + [c], put_cond(g, c, True), timeout, depth)
                if r:
                    r = prove(hs + [Not(c)], put_cond(g, c, False), timeout, depth)
                if r:
                    return r
            finally:
                _split[0] -= 1
    ins = nonlin_insts(hs, [g] + qf(hs))
    if ins:
        flatins = []
        for x in ins:
            flatins += flat(x)
        hs = hs + flatins
    nl = nonlin_facts(qf(hs) + [g])
    base = unit_facts(hs + [g]) + nl
    quick = hs + base
    more = bound_insts(quick, [g] + [x for x in quick if not has_quant(x)])
    if more:
        quick = quick + more + unit_facts(more)
        hs = hs + more
    gb = has_binder(g)
    if nl and z3check(linear_core(abstract(quick + [Not(g)])), 600) == 'unsat':
        return Result('proved')
    st = z3check(abstract(quick + [Not(g)]), min(timeout, 250 if gb and depth > 0 else 700))
    if st == 'unsat':
        return Result('proved')
    if depth <= 0 or not any(has_binder(x) for x in [g] + hs):
        if st == 'unknown' and timeout > 700:
            st, m, why = z3check(abstract(quick + [Not(g)]), timeout, True)
            if st == 'unsat':
                return Result('proved')
        if st != 'sat' and timeout > 700 and by_signs(quick, g, timeout):
            return Result('proved')
        return Result('refuted' if st == 'sat' else 'unknown', 'first-order', None, (quick, g))
    extra = []
    for stage in stages(hs, g, timeout, depth):
        if not stage:
            continue
        extra += stage
        st = z3check(abstract(quick + extra + [Not(g)]), min(timeout, 800))
        if st == 'unsat':
            return Result('proved')
    st, m, why = z3check(abstract(quick + extra + [Not(g)]), timeout, True)
    if st == 'unsat':
        return Result('proved')
    if st != 'sat' and by_signs(quick + extra, g, timeout):
        return Result('proved')
    return Result('refuted' if st == 'sat' else 'unknown', why, m, (quick + extra, g))


def by_signs(hs, g, timeout):
    """once more with the signs and bounds of the products and quotients of reals in the goal (theorems of ordered fields)"""
    sf = sign_facts(g)
    return bool(sf) and z3check(abstract(hs + sf + [Not(g)]), timeout) == 'unsat'


def sign_facts(g):
    out, n = [], 0
    num = lambda t: z3.is_rational_value(t) or z3.is_int_value(t)
    for t in subterms(g):
        if not z3.is_app(t) or t.sort() != R or maxfree(t) or n > 16:
            continue
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL and sum(1 for c in t.children() if not num(c)) > 1:
            cs = t.children()
            n += 1
            out.append(Implies(And(*[c >= 0 for c in cs]), t >= 0))
            if len(cs) == 2:
                for a, b in ((cs[0], cs[1]), (cs[1], cs[0])):
                    out += [Implies(And(a >= 0, b <= 0), t <= 0), Implies(And(0 <= a, a <= 1, b >= 0), And(t <= b))]
        elif k == z3.Z3_OP_DIV and not num(t.arg(1)):
            a, b = t.children()
            n += 1
            out += [Implies(And(a >= 0, b > 0), t >= 0), Implies(And(a <= 0, b > 0), t <= 0), Implies(And(a <= b, b > 0), t <= 1)]
    return out


_bq = {}


def bound_quant(f):
    """(guard, quantifier) when f is a universal fact, possibly guarded, over one integer whose body has a sum, product or count that depends on it"""
    k = f.get_id()
    if k not in _bq:
        r, q, gs = None, f, []
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES:
            gs, q = [f.arg(0)], f.arg(1)
        if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.var_sort(0) == I:
            stack, seen = [q.body()], set()
            while stack and r is None:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().name() in BNAMES and not (closed(x.arg(0)) and closed(x.arg(1))):
                    r = (gs, q)
                stack.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
        _bq[k] = (r, f)
    return _bq[k][0]


def bound_insts(fs, ground):
    """instances, at the arbitrary integers of the goal and of the hypotheses, of the universal facts that the solver cannot instantiate itself (no trigger inside a sum)"""
    qs = [x for x in map(bound_quant, [f for f in fs if has_quant(f)]) if x]
    if not qs:
        return []
    cs = [c for c in int_terms(ground) if c.num_args() == 0 and '#' in c.decl().name()][:6]
    return [Implies(And(*gs), z3.substitute_vars(q.body(), c)) if gs else z3.substitute_vars(q.body(), c) for gs, q in qs[:6] for c in cs]


def ground_nonlin(fs):
    """(divisors, products) among the ground integer terms of fs"""
    divs, prods, mods = {}, {}, {}
    for f in fs:
        for t in subterms(f):
            if not z3.is_app(t) or t.sort() != I:
                continue
            k = t.decl().kind()
            if k in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and not z3.is_int_value(t.arg(1)):
                divs[t.arg(1).get_id()] = t.arg(1)
                mods[(t.arg(0).get_id(), t.arg(1).get_id())] = (t.arg(0), t.arg(1))
            elif k == z3.Z3_OP_MUL:
                prods[t.get_id()] = t
    return divs, prods, mods


def linear_core(fs):
    """quantifier-free facts with the non-linear monomials, quotients and remainders named by constants (weaker, hence sound)"""
    out = [z3.simplify(f, som=True) for f in fs if not has_quant(f)]
    pairs = {}
    keepalive = [out]
    for f in out:
        for t in subterms(f):
            if not z3.is_app(t):
                continue
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in t.children() if not (z3.is_int_value(c) or z3.is_rational_value(c))) > 1:
                cs = [c for c in t.children() if not (z3.is_int_value(c) or z3.is_rational_value(c))]
                nums = [c for c in t.children() if z3.is_int_value(c) or z3.is_rational_value(c)]
                p = cs[0]
                for c in cs[1:]:
                    p = p * c
                keepalive.append(p)
                w = Const('nl~' + '*'.join(sorted(str(c.get_id()) for c in cs)), t.sort())
                for c in nums:
                    w = c * w
                pairs[t.get_id()] = (t, w)
            elif k in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV, z3.Z3_OP_DIV) and not (z3.is_int_value(t.arg(1)) or z3.is_rational_value(t.arg(1))):
                pairs[t.get_id()] = (t, Const('nl~%d' % t.get_id(), t.sort()))
    if not pairs:
        return out
    return [z3.substitute(f, *pairs.values()) for f in out]


def cofactors(prods, m):
    out = {}
    for t in prods.values():
        cs = t.children()
        for i, c in enumerate(cs):
            if c.eq(m):
                rest = cs[:i] + cs[i + 1:]
                a = rest[0]
                for r in rest[1:]:
                    a = a * r
                if not z3.is_int_value(a):
                    out[a.get_id()] = a
                break
    return out


def nonlin_facts(fs):
    """quotient/remainder facts: t = m*(t div m) + t mod m, and  a = b or |m*a - m*b| >= m  for the cofactors of m"""
    divs, prods, mods = ground_nonlin(fs)
    if not divs:
        cnt = {}
        for t in prods.values():
            for c in {c.get_id(): c for c in t.children()}.values():
                if z3.is_const(c) and not z3.is_int_value(c):
                    cnt.setdefault(c.get_id(), [c, 0])[1] += 1
        divs = {k: c for k, (c, m) in sorted(cnt.items(), key=lambda e: -e[1][1])[:2] if m >= 2}
    if not divs:
        return []
    out = []
    quot = {}
    for t, m in list(mods.values())[:12]:
        q = t / m
        out.append(Implies(m > 0, And(t == m * q + t % m, 0 <= t % m, t % m < m)))
        quot.setdefault(m.get_id(), {})[q.get_id()] = q
    for mid, m in divs.items():
        cf = cofactors(prods, m)
        cf.update(quot.get(mid, {}))
        cs = list(cf.values())[:9]
        for a in cs:
            out.append(Implies(And(m >= 1, a >= 0), m * a >= a))
        for a, b in itertools.combinations(cs, 2):
            out.append(Implies(m > 0, Or(a == b, And(a > b, m * a - m * b >= m), And(a < b, m * b - m * a >= m))))
    return out


def nonlin_insts(hs, fs):
    """instances of universally quantified hypotheses with products or remainders, at the cofactors of the ground terms"""
    divs, prods, mods = ground_nonlin(fs)
    qs = [h for h in hs if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == I and mentions_mod(h.body())]
    if not qs:
        return []
    for h in qs:
        for t in all_subterms(h.body()):
            if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and z3.is_const(t.arg(1)) and not z3.is_int_value(t.arg(1)):
                divs[t.arg(1).get_id()] = t.arg(1)
    cs = {}
    for m in divs.values():
        cs.update(cofactors(prods, m))
    out = []
    for h in qs:
        for c in list(cs.values())[:6]:
            out.append(z3.substitute_vars(h.body(), c))
    return out


def mentions_mod(t):
    return any(z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) for x in all_subterms(t))


def unit_facts(ts):
    out = []
    done = set()
    work = list(ts)
    rounds = 0
    while work and rounds < 3:
        rounds += 1
        new = []
        for a in binder_apps(work):
            if a.get_id() in done:
                continue
            done.add(a.get_id())
            nm = a.decl().name()
            l, n = a.arg(0), a.arg(1)
            if nm in ('SumI', 'Cnt'):
                out.append(Implies(n <= 0, a == 0))
                if nm == 'Cnt':
                    out.append(a >= 0)
                    out.append(Implies(n >= 0, a <= n))
            elif nm == 'SumR':
                out.append(Implies(n <= 0, a == 0))
            elif nm in ('ProdI', 'ProdR'):
                out.append(Implies(n <= 0, a == 1))
            elif nm == 'AnyB':
                w = fresh_for('any', [a], I, 'any')
                f1 = Implies(a, And(0 <= w, w < n, beta(l, w)))
                out.append(f1)
                q = bvar(I, 'q')
                f2 = Implies(Not(a), ForAll([q], Implies(And(0 <= q, q < n), Not(beta(l, q)))))
                out.append(f2)
                new += [f1]
            elif nm in ('Sel', 'Rank'):
                k = a.arg(2)
                if nm == 'Sel':
                    f = Implies(And(0 <= k, k < Cnt(l, n)), And(0 <= a, a < n, beta(l, a), Rank(l, n, a) == k))
                else:
                    f = Implies(And(0 <= k, k < n, beta(l, k)), And(0 <= a, a < Cnt(l, n), Sel(l, n, a) == k))
                out.append(f)
                new.append(f)
        work = new
    return out


def int_terms(ts):
    """candidate index terms: integer-sorted constants and small applications occurring in ts"""
    out = {}
    for t in ts:
        for s in subterms(t):
            if s.sort() == I and z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.decl().name() not in BNAMES:
                out[s.get_id()] = s
    return list(out.values())


def lamkey(l, n):
    return (l.get_id(), n.get_id())


def stages(hs, g, timeout, depth):
    """rule instances relevant to the binder applications of the goal, then of the hypotheses, in stages"""
    sub_to = max(400, min(timeout // 4, 1200))
    sf = sel_facts(hs, g)
    yield sf
    gapps = binder_apps([g])
    allapps = binder_apps([g] + hs + sf)
    ctx = hs + unit_facts([g] + hs)
    qctx = qf(ctx)
    merged = {}
    emitted = set()

    def int_eq(a, b):
        if a.eq(b):
            return True
        d = z3.simplify(a - b)
        if z3.is_int_value(d):
            return d.as_long() == 0
        return z3check(abstract(qctx + [a != b]), 150) == 'unsat' or bool(prove(ctx, a == b, 300, 0)) if has_uf(d) else z3check(abstract(qctx + [a != b]), 150) == 'unsat'

    def lam_equal(l1, n1, l2, n2):
        if l1.sort() != l2.sort():
            return False
        k = (min(l1.get_id(), l2.get_id()), max(l1.get_id(), l2.get_id()), n1.get_id(), n2.get_id())
        if k in merged:
            return merged[k][0]
        ok = int_eq(n1, n2)
        if ok and not l1.eq(l2):
            j = fresh_for(('ext', depth), [l1, l2], I, 'x')
            b1, b2 = beta(l1, j), beta(l2, j)
            ok = bool(b1.eq(b2) or prove(ctx + [0 <= j, j < n1], b1 == b2, sub_to, depth - 1))
        merged[k] = (ok, l1, l2, n1, n2)
        return ok

    def ext(pool1, pool2):
        out = []
        seen = {}
        for a in pool1:
            seen[(a.decl().name(),) + lamkey(a.arg(0), a.arg(1))] = a
        s2 = {}
        for a in pool2:
            s2[(a.decl().name(),) + lamkey(a.arg(0), a.arg(1))] = a
        for ka, a in seen.items():
            for kb, b in s2.items():
                if ka[0] != kb[0] or ka == kb or (ka, kb) in emitted or (kb, ka) in emitted:
                    continue
                emitted.add((ka, kb))
                l1, n1, l2, n2 = a.arg(0), a.arg(1), b.arg(0), b.arg(1)
                if lam_equal(l1, n1, l2, n2):
                    F = BINDERS[ka[0]]
                    if F.arity() == 2:
                        out.append(F(l1, n1) == F(l2, n2))
                    else:
                        q = bvar(I, 'q')
                        out.append(ForAll([q], Sel(namelam(l1), n1, q) == Sel(namelam(l2), n2, q), patterns=[Sel(namelam(l1), n1, q), Sel(namelam(l2), n2, q)]))
                        out.append(ForAll([q], Rank(namelam(l1), n1, q) == Rank(namelam(l2), n2, q), patterns=[Rank(namelam(l1), n1, q), Rank(namelam(l2), n2, q)]))
                        out.append(Cnt(l1, n1) == Cnt(l2, n2))
        return out

    def shift(pool1, pool2):
        out = []
        for a in pool1:
            for b in pool2:
                nm = a.decl().name()
                if nm != b.decl().name() or nm not in ('SumI', 'SumR', 'ProdI', 'ProdR') or a.arg(0).eq(b.arg(0)):
                    continue
                la, na, lb, nb = a.arg(0), a.arg(1), b.arg(0), b.arg(1)
                if ('shift', a.get_id(), b.get_id()) in emitted:
                    continue
                emitted.add(('shift', a.get_id(), b.get_id()))
                off = None
                for d in (1, 2, 3):
                    dd = z3.simplify(na - nb)
                    if (z3.is_int_value(dd) and dd.as_long() == d) or (not z3.is_int_value(dd) and d == 1 and int_eq(na, nb + 1)):
                        off = d
                        break
                if off is None:
                    continue
                j = fresh_for(('shift', depth), [la, lb], I, 'x')
                if prove(ctx + [0 <= j, j < nb], beta(la, j + off) == beta(lb, j), sub_to, depth - 1):
                    acc = b
                    for q in range(off - 1, -1, -1):
                        first = beta(la, IntVal(q))
                        acc = first + acc if nm[0] == 'S' else first * acc
                    out.append(Implies(nb >= 0, a == acc))
        return out

    yield ext(gapps, gapps)
    yield shift(gapps, gapps)
    prods = [a for a in allapps if a.decl().name() == 'ProdI']

    def signs(pool):
        out = []
        for p in pool:
            if p.decl().name() == 'ProdI' and ('pos', p.get_id()) not in emitted:
                emitted.add(('pos', p.get_id()))
                j = fresh_for(('pos', depth), [p], I, 'x')
                if prove(ctx + [0 <= j, j < p.arg(1)], beta(p.arg(0), j) >= 1, sub_to // 2, depth - 1):
                    out.append(p >= 1)
        for s in pool:
            if s.decl().name() not in ('SumI', 'SumR') or ('sgn', s.get_id()) in emitted:
                continue
            emitted.add(('sgn', s.get_id()))
            l, n = s.arg(0), s.arg(1)
            j = fresh_for(('sgn', depth), [s], I, 'x')
            rng = [0 <= j, j < n]
            body = beta(l, j)
            done = False
            if s.decl().name() == 'SumI' and body_is_product(body):
                cs = {}
                for p in prods:
                    cs[p.arg(0).get_id()] = p
                for p in prods:
                    c = p.arg(0)
                    if not int_eq(p.arg(1), n):
                        continue
                    for W, D in factorings(body):
                        pj = ProdI(c, j)
                        if not prove(ctx + rng + unit_facts([pj, W]), W == pj, sub_to, depth - 1):
                            continue
                        if prove(ctx + rng, And(0 <= D, D < beta(c, j)), sub_to, depth - 1):
                            out.append(Implies(n >= 0, And(0 <= s, s < p)))
                            done = True
                            break
                    if done:
                        break
            if not done and prove(ctx + rng, body >= 0, sub_to // 2, min(depth - 1, 1)):
                out.append(s >= 0)
        return out

    yield signs(gapps)
    yield ext(gapps, allapps)
    yield shift(gapps, allapps) + shift(allapps, gapps)
    if depth >= 2:
        o = ext(allapps, allapps) if len(allapps) <= 16 else []
        yield o
        yield signs(allapps) if len(allapps) <= 16 else []


def has_uf(t):
    return any(z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.num_args() > 0 for s in all_subterms(t))


def body_is_product(t):
    return z3.is_mul(t) or z3.is_app(t)


def looks_succ(a, b):
    d = z3.simplify(a - b)
    return z3.is_int_value(d) and d.as_long() == 1


def factorings(t):
    """(weight, digit) splits of a product term"""
    fs = []

    def go(x):
        if z3.is_mul(x):
            for c in x.children():
                go(c)
        else:
            fs.append(x)
    go(t)
    out = []
    if len(fs) == 1:
        out.append((IntVal(1), fs[0]))
        out.append((fs[0], IntVal(1)))
        return out
    for k in range(len(fs)):
        w = fs[k]
        rest = fs[:k] + fs[k + 1:]
        d = rest[0]
        for r in rest[1:]:
            d = d * r
        out.append((w, d))
    return out


def sel_facts(hs, g):
    lams = {}
    for a in binder_apps([g] + hs) + deep_apps([g] + hs):
        if a.decl().name() in ('Sel', 'Rank', 'Cnt'):
            lams[lamkey(a.arg(0), a.arg(1))] = (a.arg(0), a.arg(1))
    out = []
    cands = int_terms([g] + hs[-12:])[:14]
    for l, n in lams.values():
        q, q2 = bvar(I, 'q'), bvar(I, 'q')
        c = Cnt(l, n)
        lc = namelam(l)
        S = lambda k: Sel(lc, n, k)
        Rank_ = Rank
        Rank2 = lambda l_, n_, k: Rank_(lc, n_, k)
        out += [c >= 0, Implies(n >= 0, c <= n)]
        out.append(ForAll([q], Implies(And(0 <= q, q < c), And(0 <= S(q), S(q) < n, beta(l, S(q)), Rank2(l, n, S(q)) == q)), patterns=[S(q)]))
        out.append(ForAll([q, q2], Implies(And(0 <= q, q < q2, q2 < c), S(q) < S(q2)), patterns=[z3.MultiPattern(S(q), S(q2))]))
        out.append(ForAll([q], Implies(And(0 <= q, q < n, beta(l, q)), And(0 <= Rank2(l, n, q), Rank2(l, n, q) < c, S(Rank2(l, n, q)) == q)), patterns=[Rank2(l, n, q)]))
        for k in cands:
            if k.sort() == I:
                out.append(Implies(And(0 <= k, k < n, beta(l, k)), And(0 <= Rank2(l, n, k), Rank2(l, n, k) < c, S(Rank2(l, n, k)) == k)))
    return out
