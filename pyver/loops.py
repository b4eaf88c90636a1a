"""Loops of unbounded length.

A for loop is summarised exactly when every location it changes has a closed form (counters, sums, products, flags,
appends, pointwise writes, set/graph/dict insertions, early exits); otherwise, and for while loops, it is cut with
an invariant: the hook E.invariants supplies candidate clauses over the changed locations, those that hold on entry and
are preserved by the body are kept, required ones become obligations."""
import z3
from .terms import *
from .engine import *
from .values import *
from .interp import unchanged, conc_b, gt0
from .lib import is_num, kind_of, quick
from .libpd import PFrame

IS = z3.IntSort()


class NeverRepeats(Exception):
    """no path through the body reaches a second iteration"""


class NoClosedForm(Unsupported):
    pass


# ------------------------------------------------------------------------- changed locations

def key(o, k):
    return (id(o), k)


class Loc:
    """one changed location: attribute of a frame/instance (k = name), or the contents of a container (k = None)"""

    def __init__(self, o, k, puts=False):
        self.o, self.k, self.puts = o, k, puts      # puts: a list of which only items are replaced (it keeps its length)


CONTAINERS = (PList, PArr, PSet, PDict, PGraph, PQueue, PFrame)


def changed(E, pre, paths):
    """objects and attributes that differ between pre and the end of some path"""
    out = {}
    for p in paths:
        post = {id(o): d for o, d in p.snap[0]}
        for o, d in pre[0]:
            d2 = post.get(id(o))
            if d2 is None:
                continue
            if isinstance(o, CONTAINERS):
                if any(not unchanged(d.get(k), v) for k, v in d2.items() if k not in ('masked', 'filt', 'isset')):
                    L = out.setdefault(key(o, None), Loc(o, None, True))
                    L.puts = L.puts and isinstance(o, PList) and only_puts(d, d2)
                continue
            for k, v in d2.items():
                if k not in d or not unchanged(d[k], v):
                    out[key(o, k)] = Loc(o, k)
    return out


def only_puts(d, d2):
    l, l2 = d['log'], d2['log']
    return len(l2) >= len(l) and all(x is y for x, y in zip(l, l2)) and all(x[0] == 'put' for x in l2[len(l):])


class Havoc:
    """arbitrary contents for the changed locations"""

    def __init__(self, E):
        self.E = E
        self.consts = {}       # name of symbol -> (loc key, role)
        self.sorts = {}

    def const(self, sort, lk, role, base):
        c = self.E.fresh(sort, base)
        self.consts[c.decl().name()] = (lk, role, c)
        return c

    def fnsym(self, lk, role, base, *sorts):
        f = self.E.freshfn(base, *sorts)
        nm = f(*[bvar(s) for s in sorts[:-1]]).decl().name()
        self.consts[nm] = (lk, role, None)
        return f


def scalar_sort(v):
    if isinstance(v, bool):
        return B
    if isinstance(v, int):
        return IS
    if isinstance(v, (float, Fraction)):
        return R
    if isinstance(v, str):
        return Lbl
    if isz(v):
        return v.sort()
    return None


def havoc_value(E, H, lk, v, new, idx=None):
    """replacement for the value of a frame variable / attribute"""
    s = H.sorts.get(lk) or scalar_sort(v)
    for w in new:
        sw = scalar_sort(w)
        if s is None or sw is None:
            break
        if sw != s:
            if {sw, s} <= {IS, R, B}:
                s = R if R in (sw, s) else IS
            else:
                s = None
                break
    else:
        if s is not None:
            H.sorts[lk] = s
            return H.const(s, lk, 'val', 'hv')
    # rebinding to another object of the same kind
    objs = [v] + list(new)
    if all(isinstance(x, HObj) and type(x) is type(objs[0]) for x in objs) and isinstance(v, CONTAINERS):
        if all(x is v for x in objs):
            return v
        n = clone(E, v)
        if n is not None:
            havoc_contents(E, H, key(n, None), n, idx)
            return n
    return POISON


def clone(E, v):
    if isinstance(v, PArr):
        if all(True for _ in v.shape):
            return PArr.of(E, v.dt, v.shape, v.reader())
    if isinstance(v, PList):
        return PList(E, items=v.d['items'], n=v.d['n'], fn=v.d['fn'], inv=v.d['inv'], log=())
    if isinstance(v, PSet):
        return PSet(E, a=v.d['a'], items=v.d['items'], has=v.d['has'], log=(), card=v.d['card'])
    if isinstance(v, PFrame) and v.d.get('obj'):
        return PFrame(E, **dict(v.d, log=()))
    return None


def elem_sort(v):
    if is_num(v):
        return scalar_sort(v)
    if kind_of(v) == 'str':
        return Lbl
    return None


def havoc_contents(E, H, lk, o, idx=None, puts=False):
    if isinstance(o, PList):
        n = o.n if puts else H.const(IS, lk, 'len', 'hlen')
        E.assume(zi(n) >= 0)
        probe = None
        old = o.getter()
        try:
            probe = old(bvar(IS)) if not (o.items is not None and len(o.items) == 0) else None
        except Unsupported:
            probe = None
        s = elem_sort(probe) if probe is not None and probe is not POISON else None
        if s is not None:
            f = H.fnsym(lk, 'elems', 'hel', IS, s)
            inv = None
            if o.d['inv'] is not None and s == Lbl:
                inv = H.fnsym(lk, 'inv', 'hinv', Lbl, IS)
                E.assume(wf_list(n, f, inv))
            g = f
        else:
            inv = None
            g = lambda i: POISON
        if idx is not None:
            def rd(i, g=g, old=old):
                return old(i) if isz(i) and i.eq(idx) else g(i)
        else:
            rd = g
        o.set(items=None, n=n, fn=rd, inv=inv, log=())
    elif isinstance(o, PArr):
        if o.d['base'] is not None:
            raise Unsupported('havoc of a view')
        srt = {'i': IS, 'r': R, 'b': B}.get(o.dt)
        if srt is None:
            srt = Lbl
        f = H.fnsym(lk, 'cells', 'hcell', *([IS] * o.ndim + [srt]))
        old = o.reader()
        if idx is not None:
            def rd(ix):
                return old(ix) if len(ix) and isz(ix[0]) and ix[0].eq(idx) else f(*[zi(x) for x in ix])
        else:
            def rd(ix):
                return f(*[zi(x) for x in ix])
        o.set(fn=rd, masked=None, log=(), linv=None)
    elif isinstance(o, PSet):
        a = H.const(SetL, lk, 'set', 'hset')
        o.set(a=a, items=None, has=None, card=None, log=())
        E.assume(Card(a) >= 0)
    elif isinstance(o, PGraph):
        p = H.const(ArraySort(Lbl, SetL), lk, 'preds', 'hpreds')
        n = H.const(SetL, lk, 'nodes', 'hnodes')
        at = []
        for k, (has, get) in o.d['attrs']:
            pr = get(bvar(Lbl))
            s = elem_sort(pr)
            if s is None:
                at.append((k, (lambda y: POISON, lambda y: POISON)))
                continue
            hf = H.fnsym(lk, 'attr', 'hhas', Lbl, B)
            gf = H.fnsym(lk, 'attr', 'hget', Lbl, s)
            at.append((k, (hf, gf)))
        o.set(preds=p, nodes=n, attrs=tuple(at), log=())
    elif isinstance(o, PDict):
        pr = None
        es = o.d['entries']
        if es:
            pr = es[0][1]
        elif es is None:
            pr = o.d['get'](bvar(Lbl))
        s = elem_sort(pr) if pr is not None else None
        hf = H.fnsym(lk, 'dhas', 'hdhas', Lbl, B)
        gf = H.fnsym(lk, 'dget', 'hdget', Lbl, s) if s is not None else (lambda x: POISON)
        o.set(entries=None, has=hf, get=gf, keys=None, log=())
    elif isinstance(o, PQueue):
        h = H.const(IS, lk, 'head', 'hqh')
        t = H.const(IS, lk, 'tail', 'hqt')
        f = H.fnsym(lk, 'q', 'hq', IS, Lbl)
        E.assume(And(0 <= h, h <= t))
        o.set(head=h, tail=t, fn=f, pos=H.const(ArraySort(Lbl, IS), lk, 'pos', 'hqp'), log=())
    elif isinstance(o, PFrame):
        n = H.const(IS, lk, 'rows', 'hrows')
        E.assume(n >= 0)
        f = H.fnsym(lk, 'cells', 'hcell', Lbl, IS, R)
        if o.d.get('obj'):          # named columns hold numbers, the columns of the variables states
            real, f2 = f, H.fnsym(lk, 'states', 'hstate', Lbl, IS, IS)
            f = lambda l, r: real(lab(l), r) if isinstance(l, str) else f2(l, r)
        o.set(n=n, cell=f, log=())
    else:
        raise Unsupported('havoc of ' + o.kind)


def wf_list(n, f, inv):
    q = bvar(IS, 'q')
    t = f(q)
    ok = isz(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
    return ForAll([q], Implies(zb(inrange(q, n)), inv(lab(t)) == q), patterns=[t] if ok else [])


def havoc_all(E, H, locs, news, idx=None):
    for lk, L in locs.items():
        if L.k is None:
            havoc_contents(E, H, lk, L.o, idx, L.puts)
    for lk, L in locs.items():
        if L.k is not None:
            if L.k not in L.o.d:
                L.o.d[L.k] = POISON
            elif L.o.d[L.k] is not POISON:
                L.o.d[L.k] = havoc_value(E, H, lk, L.o.d[L.k], news.get(lk, []), idx)


def discover(I, f, enter, body, idx_mode=None, exits=True):
    """fixpoint of the changed locations; returns (locs, news). exits=False: without the changes on paths that leave the loop"""
    E = I.E
    locs, news = {}, {}
    for rnd in range(6):
        pre0 = E.snapshot()
        H = Havoc(E)
        E.probing += 1
        E.discovering += 1
        try:
            havoc_all(E, H, locs, news, idx_mode)
            pre = E.snapshot()
            paths = E.explore(body)
        finally:
            E.probing -= 1
            E.discovering -= 1
            E.restore(pre0)
        if not exits:
            paths = [p for p in paths if p.out[0] == 'ok']
        ch = changed(E, pre, paths)
        # only objects that exist before the loop
        ids = {id(o) for o, d in pre0[0]}
        grew = False
        for lk, L in ch.items():
            if id(L.o) not in ids:
                continue
            vals = []
            if L.k is not None:
                for p in paths:
                    d = {id(o): d for o, d in p.snap[0]}.get(id(L.o), {})
                    if L.k in d and d[L.k] is not POISON:
                        vals.append(d[L.k])
            if lk not in locs:
                locs[lk] = L
                grew = True
            elif locs[lk].puts and not L.puts:
                locs[lk].puts = False
                grew = True
            if L.k is not None:
                old = news.setdefault(lk, [])
                for v in vals:
                    if not any(type_tag(v) == type_tag(w) for w in old):
                        old.append(v)
                        grew = True
        if not grew:
            return locs, news
    raise Unsupported('loop modification analysis does not stabilise')


def type_tag(v):
    s = scalar_sort(v)
    if s is not None:
        return ('s', s.name())
    if isinstance(v, HObj):
        return (v.kind, getattr(getattr(v, 'cls', None), 'name', ''))
    return type(v).__name__


# ------------------------------------------------------------------------- closed forms

def sym_for(I, s, it, f):
    E = I.E
    hook = E.invariants(I, s, f, it) if E.invariants else None
    if hook is not None:
        return inv_loop(I, s, f, it, hook)
    memo = (id(s), E.counter, tuple(x.get_id() for x in E.hyps()), tuple(E.dec[:E.pos]))
    if memo in E.noclosed or E.discovering and id(s) in E.noclosed:
        return inv_loop(I, s, f, it, E.default_inv(I, s, f, it))
    try:
        pre, nob, keys = E.snapshot(), len(E.obligations), set(E.okeys)
        old = E.merging, E.maxpaths
        try:
            if E.default_inv:
                E.merging, E.maxpaths = False, min(E.maxpaths, 12)
            return summarise(I, s, it, f)
        finally:
            E.merging, E.maxpaths = old
    except NeverRepeats:
        E.restore(pre)
        del E.obligations[nob:]
        E.okeys = keys
        return first_only(I, s, it, f)
    except Unsupported as e:
        if not (isinstance(e, NoClosedForm) or E.default_inv):
            raise
        E.restore(pre)
        del E.obligations[nob:]     # conditions of the abandoned attempt
        E.okeys = keys
        if E.default_inv:
            E.noclosed[memo] = E.hyps()
            if E.discovering:
                E.noclosed[id(s)] = s
            return inv_loop(I, s, f, it, E.default_inv(I, s, f, it))
        raise Unsupported('loop at line %d: %s' % (s.lineno, e))


def first_only(I, s, it, f):
    """a loop that is left in its first iteration, if it has one"""
    E = I.E
    fl = getattr(it, 'filt', None)
    if fl is not None or not I.cond(lt(0, it.n)):
        if fl is not None:
            raise Unsupported('loop over a filtered sequence that is left in its first iteration')
        if s.orelse:
            I.block(s.orelse, f)
        return
    I.assign(s.target, it.fn(0), f)
    hook = E.default_inv(I, s, f, it) if E.default_inv else Inv()
    hook.begin(I, f, it)
    try:
        I.block(s.body, f)
    except Brk:
        hook.leaving(E, 0)
        return
    except Ret:
        hook.leaving(E, 0)
        raise
    except Cont:
        pass
    raise Infeasible()


def term_deps(H, v, skip=()):
    """havoc symbols occurring in a value"""
    out = set()
    if isz(v):
        for t in all_subterms(v):
            if z3.is_app(t) and t.decl().name() in H.consts:
                out.add(t.decl().name())
    elif isinstance(v, tuple):
        for x in v:
            out |= term_deps(H, x)
    return out


def summarise(I, s, it, f):
    E = I.E
    n = it.n
    k = Const(E.name('k'), IS)
    fl = getattr(it, 'filt', None)
    if fl is not None:
        n = fl[0]

    def body():
        if fl is not None:
            if not I.cond(fl[1](k)):
                return
            I.assign(s.target, fl[2](k), f)
        else:
            I.assign(s.target, it.fn(k), f)
        I.block(s.body, f)

    nf0 = len(E.facts)
    E.gvars.append(k)
    E.facts.append(('f', zb(inrange(k, n))))
    try:
        locs, news = discover(I, f, None, body, k)
        base = E.snapshot()
        H = Havoc(E)
        havoc_all(E, H, locs, news, k)
        pre = E.snapshot()
        pre_d = {id(o): dict(d) for o, d in pre[0]}
        nfh = len(E.facts)
        paths = E.explore(body)
        trace0 = len(pre[5])
    finally:
        E.gvars.pop()
    E.restore(base)
    if E.gvars and E.gvars[-1].eq(k):
        E.gvars.pop()
    del E.facts[nf0:]
    if paths:
        E.counter = max(p.snap[4] for p in paths)
    old_d = {id(o): dict(d) for o, d in base[0]}
    okp = [p for p in paths if p.out[0] == 'ok']
    exits = [p for p in paths if p.out[0] != 'ok']
    if exits and not okp and fl is None:
        raise NeverRepeats()

    def post(p, o, kk):
        d = {id(x): d for x, d in p.snap[0]}[id(o)]
        return d if kk is None else d.get(kk, POISON)

    closed = {}      # havoc symbol name -> function of index giving the closed form term
    symconst = {nm: c for nm, (lk, role, c) in H.consts.items() if c is not None}

    def resolve(v, t):
        """value at iteration t (closed forms substituted); None if some havoc symbol has no closed form"""
        if isinstance(v, (int, float, Fraction, bool, str)) or v is None or v is POISON:
            return v
        if isz(v):
            deps = term_deps(H, v)
            for d in deps:
                if d not in closed:
                    raise NoClosedForm('depends on %s' % H.consts[d][1])
            pairs = [(symconst[d], zc(closed[d](k), symconst[d].sort())) for d in deps]
            w = z3.substitute(v, *pairs) if pairs else v
            return conc(z3.substitute(w, (k, zi(t))))
        if isinstance(v, tuple):
            return tuple(resolve(x, t) for x in v)
        if callable(v) and not hasattr(v, 'substituted'):
            return lambda *a: resolve(v(*a), t)
        if hasattr(v, 'substituted'):
            # objects: substitute all at once
            pairs = [(symconst[d], zc(closed[d](zi(t)), symconst[d].sort())) for d in closed if d in symconst] + [(k, zi(t))]
            return v.substituted(E, pairs)
        return v

    def zc(v, sort):
        return zr(v) if sort == R else zi(v) if sort == IS else z(v)

    def pcond(p, t):
        return resolve(p.cond(), t) if isz(p.cond()) else p.cond()

    def merged_scalar(L):
        """post value over the normal paths, in terms of the havoc symbols and k"""
        v = None
        for p in reversed(okp):
            x = post(p, L.o, L.k)
            if x is POISON:
                return POISON
            v = x if v is None else merge_val(E, p.cond(), x, v) if not same(x, v) else v
        return v

    # scalars first, repeatedly: closed forms may depend on one another
    pending = {lk: L for lk, L in locs.items() if L.k is not None}
    results = {}
    progress = True
    # list lengths / queue lengths are counters
    lens = {}
    for lk, L in locs.items():
        if L.k is None and isinstance(L.o, PList):
            hn = pre_d[id(L.o)]['n']
            if not okp:
                lens[lk] = None
                continue
            vals = [sub(post(p, L.o, None)['n'] if post(p, L.o, None)['items'] is None else len(post(p, L.o, None)['items']), hn) for p in okp]
            vals = [conc(simp(z(v))) if isz(v) else v for v in vals]
            lens[lk] = (hn, vals)
    while progress and (pending or lens):
        progress = False
        for lk in list(lens):
            if lens[lk] is None:
                del lens[lk]
                continue
            hn, vals = lens[lk]
            if all(isinstance(v, int) for v in vals) and len(set(vals)) == 1:
                dlt, n0 = vals[0], len_of(old_d[id(locs[lk].o)])
                closed[hn.decl().name()] = lambda t, n0=n0, dlt=dlt: add(n0, mul(dlt, t))
                del lens[lk]
                progress = True
                continue
            try:
                ds = [(pcond(p, k), v) for p, v in zip(okp, vals)]
            except NoClosedForm:
                continue
            if all(isinstance(v, int) for v in vals):
                n0 = len_of(old_d[id(locs[lk].o)])
                step = lambda j, ds=ds: sumite(E, [(subst_val(E, c, [(k, zi(j))]) if isz(c) else c, v) for c, v in ds])
                closed[hn.decl().name()] = lambda t, n0=n0, step=step: add(n0, mk_sum(step, t))
                del lens[lk]
                progress = True
            else:
                del lens[lk]
        for lk in list(pending):
            L = pending[lk]
            hv = pre_d[id(L.o)].get(L.k, POISON)
            v0 = old_d[id(L.o)].get(L.k, POISON)
            if not okp:
                del pending[lk]
                continue
            try:
                r = scalar_form(I, L, hv, v0, merged_scalar(L), resolve, k, H, closed)
            except NoClosedForm:
                continue
            results[lk] = r
            del pending[lk]
            if r is not None and isz(hv):
                closed[hv.decl().name()] = r
            progress = True
    for lk in pending:
        results[lk] = None        # undetermined after the loop

    # exits
    exc_f = None
    if exits:
        conds = [(p, p.cond()) for p in exits]
        def anyexit(t):
            return bor(*[pcond(p, t) for p in exits])
        ex = mk_any(anyexit, n)
        took = E.branch(zb(ex)) if not isinstance(ex, bool) else ex
    else:
        took = False
    last = n
    if took:
        e = E.fresh(IS, 'exit')
        E.assume(inrange(e, n))
        E.assume(all_in(lambda j: bnot(anyexit(j)), e))
        last = e
    # facts of the body hold in every completed iteration
    for p in okp:
        fs = [x for kx, x in p.facts if kx == 'f']
        if fs:
            try:
                q = bvar(IS, 'q')
                c = pcond(p, q)
                bodyf = band(*[resolve(x, q) for x in fs])
                if bodyf is not True:
                    E.assume(ForAll([q], Implies(And(zb(inrange(q, last)), zb(c)), zb(bodyf))))
            except NoClosedForm:
                pass
    # effects of the completed iterations
    writes = []
    for lk, L in locs.items():
        if L.k is None:
            writes.append((L.o, container_effect(I, L.o, okp, post, pcond, resolve, old_d[id(L.o)], pre_d[id(L.o)], last, k, H, it if fl is None and last is n else None)))
    for o, w in writes:
        w()
    for lk, L in locs.items():
        if L.k is not None:
            r = results.get(lk)
            v0 = old_d[id(L.o)].get(L.k, POISON)
            if not okp:
                continue
            if r is None and E.default_inv and isinstance(L.o, PInst):
                raise NoClosedForm('attribute %s' % L.k)
            L.o.d[L.k] = POISON if r is None else r(last)
    tr = [p for p in okp if len(p.snap[5]) > trace0]
    if tr:
        evs = [(p, list(p.snap[5][trace0:])) for p in okp]
        E.trace.append(('loop', last, [(p.cond(), ev, resolve) for p, ev in evs]))
    if not took:
        if s.orelse:
            I.block(s.orelse, f)
        return
    # the iteration that leaves
    alts = [(p, pcond(p, e)) for p in exits]
    chosen = None
    for p, c in alts[:-1]:
        if E.branch(zb(c)):
            chosen = p
            break
    if chosen is None:
        chosen, c = alts[-1]
        E.assume(c)
    for kx, x in chosen.facts:
        E.assume(resolve(x, e))
    # effects of the leaving iteration
    for lk, L in locs.items():
        if L.k is None:
            apply_path(I, L.o, chosen, post, resolve, e)
        else:
            v = post(chosen, L.o, L.k)
            try:
                L.o.d[L.k] = resolve(v, e) if v is not POISON else POISON
            except NoClosedForm:
                L.o.d[L.k] = POISON
    kind, v = chosen.out
    if kind == 'ret':
        raise Ret(resolve(v, e))
    if kind == 'raise':
        raise PyRaise(v)
    return      # break


def len_of(d):
    return len(d['items']) if d['items'] is not None else d['n']


def sumite(E, cv):
    v = cv[-1][1]
    for c, x in reversed(cv[:-1]):
        v = ite(c, x, v) if not isinstance(c, bool) else (x if c else v)
    return v


def scalar_form(I, L, hv, v0, new, resolve, k, H, closed):
    """closed form t -> value of the location after t iterations"""
    E = I.E
    if new is POISON or hv is POISON and False:
        return None
    if isz(hv) and isz(new) or isz(hv) and isconc(new):
        me = hv.decl().name()
        deps = term_deps(H, new)
        if me not in deps:
            g = lambda t: resolve(new, t)
            resolve(new, k)
            return lambda t: last_value(E, g, v0, t)
        # additive
        if hv.sort() in (IS, R):
            d = z3.simplify(zs(new, hv.sort()) - hv)
            if me not in term_deps(H, d):
                resolve(d, k)
                dc = conc(d)
                if isconc(dc):
                    return lambda t: add(v0, mul(dc, t))
                return lambda t: add(v0, mk_sum(lambda j: resolve(d, j), t))
            d = ratio(new, hv)
            if d is not None and me not in term_deps(H, d):
                resolve(d, k)
                return lambda t: mul(v0, mk_prod(lambda j: resolve(d, j), t))
        if hv.sort() == B:
            on = z3.simplify(z3.substitute(zb(new), (hv, BoolVal(True))))
            off = z3.simplify(z3.substitute(zb(new), (hv, BoolVal(False))))
            if z3.is_true(on):
                resolve(off, k)
                return lambda t: bor(v0, mk_any(lambda j: zb(resolve(off, j)), t))
            if z3.is_false(off):
                resolve(on, k)
                return lambda t: band(v0, mk_all(lambda j: zb(resolve(on, j)), t))
        raise NoClosedForm('no closed form for %s' % L.k)
    # a value set in every iteration (temporaries, loop targets)
    if not (isz(hv) and hv.decl().name() in term_deps(H, new)):
        g = lambda t: resolve(new, t)
        if isz(new) or isinstance(new, tuple):
            resolve(new, k)
        return lambda t: last_value(E, g, v0, t)
    raise NoClosedForm(L.k)


def zs(v, s):
    return zr(v) if s == R else zi(v)


def ratio(new, hv):
    """d with new == hv * d"""
    new = z(new)
    if z3.is_app(new) and new.decl().kind() == z3.Z3_OP_TO_REAL:
        r = ratio(new.arg(0), hv)
        return None if r is None else ToReal(r)
    if z3.is_mul(new):
        ch = new.children()
        for i, c in enumerate(ch):
            if c.eq(hv):
                rest = ch[:i] + ch[i + 1:]
                d = rest[0]
                for x in rest[1:]:
                    d = d * x
                return d
            r = ratio(c, hv) if z3.is_mul(c) else None
            if r is not None:
                for x in ch[:i] + ch[i + 1:]:
                    r = r * x
                return r
    if z3.is_app(new) and new.decl().kind() == z3.Z3_OP_ITE:
        a, b = ratio(new.arg(1), hv), ratio(new.arg(2), hv)
        if a is not None and b is not None:
            return If(new.arg(0), a, b)
    if new.eq(hv):
        return RealVal(1) if hv.sort() == R else IntVal(1)
    return None


def last_value(E, g, v0, t):
    t = conc(t)
    if isinstance(t, int):
        return g(t - 1) if t > 0 else v0
    v = g(sub(t, 1))
    if v0 is POISON:
        return v if quick(E, zi(t) > 0) else POISON
    try:
        if v is POISON:
            return POISON
        return merge_val(E, t > 0, v, v0)
    except Unsupported:
        return v if quick(E, zi(t) > 0) else POISON


def alive(d, d0):
    return d.get('log', ())


def container_effect(I, o, okp, post, pcond, resolve, old, pre, n, k, H, src=None):
    """thunk performing the effect of iterations 0..n-1 on the container"""
    E = I.E
    logs = [(p, post(p, o, None)['log']) for p in okp]
    if all(not l for p, l in logs):
        def none():
            o.d.update(old)
        return none
    if isinstance(o, PList):
        kinds = {e[0] for p, l in logs for e in l}
        if kinds <= {'append'} and all(len(l) <= 1 for p, l in logs):
            always = all(len(l) == 1 for p, l in logs)
            vals = [(p, l[0][1]) for p, l in logs if l]

            def V(t):
                v = None
                for p, x in reversed(vals):
                    y = resolve(x, t)
                    v = y if v is None else merge_val(E, pcond(p, t), y, v)
                return v
            for p, x in vals:
                if isz(x) or isinstance(x, tuple):
                    resolve(x, k)
            if always:
                m, g = n, V
            else:
                P = lambda t: zb(bor(*[pcond(p, t) for p, x in vals]))
                P(k)
                lm = Lambda_b(P)
                m = Cnt(lm, zi(n))
                g = lambda i: V(Sel(lm, zi(n), zi(i)))

            def eff():
                if not always:
                    E.assume(m >= 0)
                o.d.update(old)
                n0, og = o.n, o.getter()
                if same(n0, 0):
                    o.setto(m, g)
                else:
                    def rd(i):
                        c = lt(i, n0)
                        if isinstance(c, bool):
                            return og(i) if c else g(sub(i, n0))
                        return merge_val(E, c, og(i), g(sub(i, n0)))
                    o.setto(add(n0, m), rd)
                o.d['log'] = old['log'] + (('bulk',),)
                if same(n0, 0) and not always:
                    o.setfilt(n, P, V)
                if same(n0, 0) and src is not None:
                    o.setpairs(src, None if always else P, V)
            return eff
        if kinds <= {'put'} and all(len(l) == 1 for p, l in logs):
            if not all(isz(l[0][1]) and l[0][1].eq(k) for p, l in logs):
                raise NoClosedForm('list assignment at another index')
            vals = [(p, l[0][2]) for p, l in logs]

            def V(t):
                v = None
                for p, x in reversed(vals):
                    y = resolve(x, t)
                    v = y if v is None else merge_val(E, pcond(p, t), y, v)
                return v

            def eff():
                o.d.update(old)
                n0, og = o.n, o.getter()

                def rd(i):
                    c = inrange(i, n)
                    if isinstance(c, bool):
                        return V(i) if c else og(i)
                    return merge_val(E, c, V(i), og(i))
                same_all = eq(n, n0) is True or quick(E, zi(n) == zi(n0))
                o.set(items=None, n=n0, fn=V if same_all else rd, inv=None, log=old['log'] + (('bulk',),))
            return eff
        raise NoClosedForm('list updates')
    if isinstance(o, PArr):
        ws = [(p, c, v) for p, l in logs for (c, v) in l]
        # every path applies its writes in order; combine into one conditional write per iteration

        def hit(t, idx):
            return bor(*[band(pcond(p, t), resolve(c(idx), t)) for p, c, v in ws])

        def val(t, idx):
            out = None
            for p, l in logs:
                x = None
                for c, v in l:
                    y = resolve(v(idx), t)
                    x = y if x is None else merge_val(E, zb(resolve(c(idx), t)), y, x)
                if x is None:
                    continue
                out = x if out is None else merge_val(E, pcond(p, t), x, out)
            return out
        idx0 = tuple(bvar(IS) for _ in range(o.ndim))
        hk = hit(k, idx0)
        row = implies_row(hk, idx0, k)
        vk = val(k, idx0)
        const = not isz(vk) or not mentions(vk, [k])

        def eff():
            o.d.update(old)
            if row is not None:
                d = row
                o.write(lambda idx: band(inrange(idx[d], n), hit(zi(idx[d]), idx)), lambda idx: val(zi(idx[d]), idx))
            elif const:
                o.write(lambda idx: mk_any(lambda j: zb(hit(j, idx)), n), lambda idx: val(IntVal(0), idx))
            else:
                raise NoClosedForm('array writes')
        if row is None and not const:
            raise NoClosedForm('array writes')
        return eff
    if isinstance(o, PSet):
        for p, l in logs:
            if any(e[0] not in ('add', 'adds') for e in l):
                raise NoClosedForm('set updates')
        one = lambda t, x: bor(*[band(pcond(p, t), *[]) if False else band(pcond(p, t), bor(*[eq(lab(resolve(e[1], t)), x) if e[0] == 'add' else resolve(e[1](x), t) for e in l])) for p, l in logs if l])
        one(k, bvar(Lbl))

        def eff():
            o.d.update(old)
            a0 = o.array()
            S = E.fresh(SetL, 'lset')
            x, q = bvar(Lbl, 'l'), bvar(IS, 'q')
            has = lambda y: mk_any(lambda j: zb(one(j, y)), n)
            if all(e[0] == 'add' for p, l in logs for e in l):
                w = E.freshfn('addidx', Lbl, IS)
                E.assume(ForAll([x], Implies(Select(S, x), Or(zb(sel(a0, x)), And(zb(inrange(w(x), n)), zb(one(w(x), x))))), patterns=[Select(S, x)]))
                E.assume(ForAll([x], Implies(zb(sel(a0, x)), Select(S, x)), patterns=[Select(S, x)]))
            else:
                E.assume(ForAll([x], Select(S, x) == Or(zb(sel(a0, x)), zb(has(x))), patterns=[Select(S, x)]))
            for p, l in logs:
                for e in l:
                    if e[0] == 'add':
                        E.assume(ForAll([q], Implies(And(zb(inrange(q, n)), zb(pcond(p, q))), Select(S, lab(resolve(e[1], q))))))
            E.assume(Card(S) >= 0)
            w = E.fresh(Lbl, 'wit')
            E.assume(Implies(Card(S) > 0, Select(S, w)))
            E.assume(ForAll([x], Implies(Select(S, x), Card(S) > 0), patterns=[Select(S, x)]))
            o.set(a=S, items=None, has=None, card=None, log=old['log'] + (('adds', has),))
        return eff
    if isinstance(o, PGraph):
        for p, l in logs:
            if any(e[0] not in ('edge', 'node', 'edges') for e in l):
                raise NoClosedForm('graph updates')

        def one(t, e):
            return bor(*[band(pcond(p, t), bor(*[band(eq(resolve(x[1], t), lab(e[0])), eq(resolve(x[2], t), lab(e[1]))) if x[0] == 'edge' else resolve(x[1](e), t) for x in l if x[0] != 'node']))
                         for p, l in logs if l])

        def onenode(t, y):
            return bor(*[band(pcond(p, t), bor(*[eq(resolve(x[1], t), y) for x in l if x[0] == 'node'])) for p, l in logs if any(x[0] == 'node' for x in l)])
        l0 = bvar(Lbl)
        one(k, (l0, l0))
        onenode(k, l0)
        hasedges = any(x[0] != 'node' for p, l in logs for x in l)
        hasnodes = any(x[0] == 'node' for p, l in logs for x in l)

        def eff():
            o.d.update(old)
            from .libnx import bulk_edges
            q, x = bvar(IS, 'q'), bvar(Lbl, 'l')
            if hasedges:
                has = lambda e: mk_any(lambda j: zb(one(j, e)), n)
                bulk_edges(E, o, has, wit=(n, one))
                P = o.d['preds']
                for p, l in logs:
                    for en in l:
                        if en[0] == 'edge':
                            E.assume(ForAll([q], Implies(And(zb(inrange(q, n)), zb(pcond(p, q))), Select(Select(P, resolve(en[2], q)), resolve(en[1], q)))))
                o.d['log'] = old['log'] + (('edges', has),)
            if hasnodes:
                N0 = o.d['nodes']
                N = E.fresh(SetL, 'nodes')
                hasn = lambda y: mk_any(lambda j: zb(onenode(j, y)), n)
                w = E.freshfn('lastidx', Lbl, IS)
                E.assume(ForAll([x], Implies(Select(N, x), Or(zb(sel(N0, x)), And(zb(inrange(w(x), n)), zb(onenode(w(x), x))))), patterns=[Select(N, x)]))
                E.assume(ForAll([x], Implies(zb(sel(N0, x)), Select(N, x)), patterns=[Select(N, x)]))
                for p, l in logs:
                    for en in l:
                        if en[0] == 'node':
                            idq = resolve(en[1], q)
                            E.assume(ForAll([q], Implies(And(zb(inrange(q, n)), zb(pcond(p, q))), And(Select(N, idq), w(idq) >= q, zb(inrange(w(idq), n)), zb(onenode(w(idq), idq)))), patterns=[idq] if good_pattern(idq, q) else []))
                o.set(nodes=N)
                names = {a for p, l in logs for en in l if en[0] == 'node' for a, _ in en[2]}
                for a in names:
                    oldat = o.attr(a)

                    def vals(t, y, a=a):
                        v = None
                        for p, l in logs:
                            for en in l:
                                if en[0] == 'node':
                                    for a2, x2 in en[2]:
                                        if a2 == a:
                                            r = resolve(x2, t)
                                            v = r if v is None else merge_val(E, pcond(p, t), r, v)
                        return v
                    hit = lambda y: band(inrange(w(lab(y)), n), onenode(w(lab(y)), lab(y)))
                    if oldat is None:
                        o.setattr_(a, (hit, lambda y, vals=vals: vals(w(lab(y)), y)))
                    else:
                        o.setattr_(a, (lambda y, oa=oldat: bor(hit(y), oa[0](y)), lambda y, vals=vals, oa=oldat: merge_val(E, zb(hit(y)), vals(w(lab(y)), y), oa[1](y))))
                o.d['log'] = old['log'] + (('bulk',),) if not hasedges else o.d['log']
        return eff
    if isinstance(o, PDict):
        for p, l in logs:
            if any(e[0] != 'set' for e in l) or len(l) != 1:
                raise NoClosedForm('dict updates')
        keyf = lambda t: lab(resolve(logs[0][1][0][1], t))
        if len(logs) > 1 and not all(same(l[0][1], logs[0][1][0][1]) for p, l in logs):
            raise NoClosedForm('dict keys differ between paths')

        def val(t):
            v = None
            for p, l in logs:
                r = resolve(l[0][2], t)
                v = r if v is None else merge_val(E, pcond(p, t), r, v)
            return v
        keyf(k)

        def eff():
            o.d.update(old)
            w = E.freshfn('lastkey', Lbl, IS)
            q = bvar(IS, 'q')
            E.assume(ForAll([q], Implies(zb(inrange(q, n)), And(w(keyf(q)) >= q, zb(inrange(w(keyf(q)), n)), keyf(w(keyf(q))) == keyf(q))), patterns=[keyf(q)] if good_pattern(keyf(q), q) else []))
            hit = lambda y: band(inrange(w(lab(y)), n), eq(keyf(w(lab(y))), lab(y)))
            es, oh, og = old['entries'], old['has'], old['get']
            if es is not None and not es:
                o.set(entries=None, has=hit, get=lambda y: val(w(lab(y))), keys=(n, keyf), log=old['log'] + (('bulk',),))
            else:
                h0 = (lambda y: bor(*[veq(y, x) for x, _ in es])) if es is not None else oh
                from .lib import dict_get
                old_copy = PDict(E, entries=es, has=oh, get=og, keys=None, log=())
                o.set(entries=None, has=lambda y: bor(hit(y), h0(y)), get=lambda y: merge_val(E, zb(hit(y)), val(w(lab(y))), dict_get(I, old_copy, y)), keys=None, log=old['log'] + (('bulk',),))
        return eff
    raise NoClosedForm('updates of a ' + o.kind)


def good_pattern(t, q):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and mentions(t, [q])


def implies_row(h, idx, k):
    """dimension d such that the write condition contains idx[d] == k"""
    if not isz(h):
        return None
    conj = list(h.children()) if z3.is_and(h) else [h]
    if z3.is_or(h):
        ds = [implies_row(c, idx, k) for c in h.children()]
        return ds[0] if ds and all(d is not None and d == ds[0] for d in ds) else None
    for c in conj:
        if z3.is_and(c):
            r = implies_row(c, idx, k)
            if r is not None:
                return r
        if z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            for d, x in enumerate(idx):
                if (a.eq(x) and b.eq(k)) or (b.eq(x) and a.eq(k)):
                    return d
    return None


def apply_path(I, o, p, post, resolve, e):
    """effects of one exploring path on a container at iteration e"""
    E = I.E
    l = post(p, o, None)['log']
    if not l:
        return
    for en in l:
        if isinstance(o, PArr):
            c, v = en
            o.write(lambda idx, c=c: resolve(c(idx), e), lambda idx, v=v: resolve(v(idx), e))
        elif isinstance(o, PList) and en[0] == 'append':
            o.append(resolve(en[1], e))
        elif isinstance(o, PSet) and en[0] == 'add':
            from .lib import s_add
            s_add(I, o, resolve(en[1], e))
        elif isinstance(o, PGraph) and en[0] == 'edge':
            from .libnx import put_edge
            put_edge(E, o, resolve(en[1], e), resolve(en[2], e))
        elif isinstance(o, PGraph) and en[0] == 'unedge':
            from .libnx import del_edge
            del_edge(E, o, resolve(en[1], e), resolve(en[2], e))
        elif isinstance(o, PDict) and en[0] == 'set':
            from .lib import dict_set
            dict_set(I, o, resolve(en[1], e), resolve(en[2], e))
        else:
            raise NoClosedForm('effects of the last iteration')


# ------------------------------------------------------------------------- invariants

class Inv:
    """candidates(): list of (name, formula thunk, required); variant(): term or None; index: current loop index"""

    merging = False      # join the branches of the ifs in the body where possible

    def candidates(self):
        return []

    def variant(self):
        return None


def sym_while(I, s, f):
    E = I.E
    hook = E.invariants(I, s, f, None) if E.invariants else None
    if hook is None and E.default_inv:
        hook = E.default_inv(I, s, f, None)
    inv_loop(I, s, f, None, hook or Inv())


def inv_loop(I, s, f, it, hook):
    E = I.E
    old = E.merging
    try:
        E.merging = E.merging or bool(hook.merging)
        inv_loop1(I, s, f, it, hook)
    finally:
        E.merging = old


def inv_loop1(I, s, f, it, hook):
    E = I.E
    isfor = it is not None
    where = 'loop at line %d' % s.lineno
    kc = [None]

    def test():
        if isfor:
            return lt(kc[0], it.n)
        return I.truth(I.ev(s.test, f))

    def body():
        if isfor:
            I.assign(s.target, it.fn(kc[0]), f)
            I.block(s.body, f)
        else:
            if not I.cond(I.ev(s.test, f)):
                raise Ret(_LEAVE)
            I.block(s.body, f)

    def wrap_body():
        try:
            body()
        except Ret as r:
            if r.v is _LEAVE:
                raise Infeasible()
            raise

    # 1. changed locations
    k0 = Const(E.name('k'), IS)
    kc[0] = k0
    pre0 = E.snapshot()
    if isfor:
        E.assume(inrange(k0, it.n))
    if E.discovering:
        # only what the loop changes is asked for: arbitrary values for all of it, on one path
        locs, news = discover(I, f, None, wrap_body)
        E.restore(pre0)
        hook.begin(I, f, it)
        havoc_all(E, Havoc(E), locs, news)
        if isfor:
            kc[0] = E.fresh(IS, 'it')
            E.assume(inrange(kc[0], it.n))
        hook.havoced(E)
        if E.branch(E.fresh(B, 'leaves')):
            hook.start_iteration(E, kc[0])
            left = [p for p in E.explore(wrap_body) if p.out[0] in ('ret', 'raise')]
            if not left:
                raise Infeasible()
            ex = left[E.choose(len(left)) if len(left) > 1 else 0]
            E.commit(ex)
            if ex.out[0] == 'raise':
                raise PyRaise(ex.out[1])
            raise Ret(ex.out[1])
        if s.orelse:
            I.block(s.orelse, f)
        return
    locs, news = discover(I, f, None, wrap_body, exits=False)
    E.restore(pre0)
    hook.begin(I, f, it)
    hook.locs = locs

    # 2. entry
    kc[0] = 0
    cands = hook.candidates(0 if isfor else None)
    live = []
    for name, th, req in cands:
        if req:
            E.oblige(th(0) if isfor else th(None), '%s: %s on entry' % (where, name), assume=False)
            live.append((name, th, req))
        elif E.entails(th(0) if isfor else th(None)):
            live.append((name, th, req))
    lists = [L.o for L in locs.values() if L.k is None and isinstance(L.o, PList) and L.o.d['inv'] is not None]

    def enter_state(H):
        havoc_all(E, H, locs, news)
        if isfor:
            k = E.fresh(IS, 'it')
            kc[0] = k
        hook.havoced(E)

    # stages 3 and 4 are the same for every path that arrives here in the same state
    memo = (id(s), E.counter, tuple(x.get_id() for x in E.hyps()), E.probing > 0, tuple(E.dec[:E.pos]))
    hit = E.loopmemo.get(memo)
    if hit is not None:
        live = [c for c in live if c[0] in hit[0]]
        E.counter, nexits = hit[1], hit[3]
    else:
        keep = E.hyps()
        # 3. preservation (Houdini on the optional clauses)
        while True:
            snap = E.snapshot()
            H = Havoc(E)
            enter_state(H)
            k = kc[0]
            if isfor:
                E.assume(inrange(k, it.n))
            for name, th, req in live:
                E.assume(th(k))
            var0 = hook.variant()
            hook.start_iteration(E, k)
            startsnap = E.snapshot()
            E.probing += 1
            try:
                paths = E.explore(wrap_body)
            finally:
                E.probing -= 1
            drop = []
            for name, th, req in live:
                if req:
                    continue
                for p in paths:
                    if p.out[0] != 'ok':
                        continue
                    E.commit(p)
                    kc[0] = k
                    hook.before_end(E, k)
                    ok = E.entails(th(add(k, 1) if isfor else None))
                    if not ok:
                        drop.append(name)
                        break
            E.restore(snap)
            if not drop:
                break
            live = [c for c in live if c[0] not in drop]
        # 4. obligations of the body under the surviving clauses
        snap = E.snapshot()
        H = Havoc(E)
        enter_state(H)
        k = kc[0]
        if isfor:
            E.assume(inrange(k, it.n))
        for name, th, req in live:
            E.assume(th(k))
        var0 = hook.variant()
        hook.start_iteration(E, k)
        paths = E.explore(wrap_body)
        exits = []
        for p in paths:
            if p.out[0] != 'ok':
                exits.append(p)
                continue
            E.commit(p)
            kc[0] = k
            hook.before_end(E, k)
            for name, th, req in live:
                E.oblige(th(add(k, 1) if isfor else None), '%s: %s preserved' % (where, name), assume=False)
            for l in lists:
                if l.d['inv'] is None:
                    raise Unsupported('list loses its positions in a loop')
                E.oblige(wf_list(l.n, l.getter(), l.d['inv']), '%s: list without duplicates' % where, assume=False)
            v1 = hook.variant()
            if var0 is not None:
                E.oblige(lex_less(v1, var0), '%s: the variant decreases' % where, assume=False)
            hook.end_iteration(E, k)
        E.restore(snap)
        nexits = len(exits)
        E.loopmemo[memo] = ({c[0] for c in live}, E.counter, keep, nexits)
    # 5. continue after the loop
    c = E.choose(1 + nexits)
    H = Havoc(E)
    enter_state(H)
    k = kc[0]
    for name, th, req in live:
        E.assume(th(k))
    if c == 0:
        if isfor:
            E.assume(eq(k, if0(it.n)))
        else:
            t = I.truth(I.ev(s.test, f))
            if t is True or isz(t) and z3.is_true(t):
                raise Infeasible()
            E.assume(bnot(zb(t)))
        if s.orelse:
            I.block(s.orelse, f)
        return
    if isfor:
        E.assume(inrange(k, it.n))
    hook.start_iteration(E, k)
    pths = E.explore(wrap_body)
    ex = [p for p in pths if p.out[0] != 'ok'][c - 1]
    E.commit(ex)
    kind, v = ex.out
    if kind != 'raise':
        hook.leaving(E, k)
    if kind == 'ret':
        raise Ret(v)
    if kind == 'raise':
        raise PyRaise(v)
    return


def if0(n):
    n = conc(n)
    if isinstance(n, int):
        return max(n, 0)
    return If(n >= 0, n, IntVal(0))


def lex_less(a, b):
    """lexicographic decrease of tuples of integers bounded below by 0"""
    if not isinstance(a, tuple):
        a, b = (a,), (b,)
    out = False
    eqs = True
    for x, y in zip(a, b):
        out = bor(out, band(eqs, lt(x, y), le(0, y)))
        eqs = band(eqs, eq(x, y))
    return zb(out)


class _L:
    pass


_LEAVE = _L()


def _begin(self, I, f, it):
    self.I, self.f, self.it = I, f, it


def _nop(self, *a):
    return None


Inv.begin = _begin
Inv.havoced = _nop
Inv.start_iteration = _nop
Inv.end_iteration = _nop
Inv.before_end = _nop
Inv.leaving = _nop
Inv.candidates = lambda self, k=None: []
