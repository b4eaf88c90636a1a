"""Verification of one function against its contract: set up a symbolic pre-state, execute the body on every path, oblige the post-state."""
import gc
import json
import os
import select
import signal
import time
import traceback
import z3
from .terms import *
from .engine import *
from .values import *
from .interp import Repo, Interp
from . import prover


class Item:
    """one function under contract"""

    def __init__(self, fn):
        self.fn, self.status, self.why, self.obls, self.paths, self.time = fn, 'ok', '', [], 0, 0.0
        self.inlined, self.used, self.lib = [], [], []


class Ctx:
    def __init__(self, prop, contracts=None, repo=None):
        self.prop = prop
        self.repo = repo or Repo()
        self.contracts = contracts or {}
        self.items = []
        self.lemmas = []

    def engine(self, contracts=None, active=()):
        E = Eng(self.repo)
        E.contracts = dict(self.contracts if contracts is None else contracts)
        E.active = tuple(active)
        I = Interp(E, self.repo)
        return E, I

    def ref(self, q, self_=None):
        c, m = q.split('.')
        ci = self.repo.classes[c]
        r = self.repo.method(ci, m)
        if r is None:
            raise Unsupported('no function ' + q)
        cc, node = r
        return FuncRef(node, cc.mod, cc, None if m in cc.static else self_, static=m in cc.static)

    def verify(self, q, setup, post, contracts=None, active=None, label=None, invariants=None, default_inv=None, raises=None, nanaware=False, maxpaths=None, body=None):
        """setup(E, I) -> (self_, args, kw, env);  post(E, I, env, out) on every normal path;
        body(E, I, env): what is executed instead of the function alone (a sequence of calls);
        raises(E, I, env, name) -> goal formula describing when the exception may be raised (None: never)"""
        gc.collect()
        it = Item(label or q)
        self.items.append(it)
        t0 = time.time()
        E, I = self.engine(contracts, (q,) if active is None else active)
        E.where = label or q
        E.nanaware = nanaware
        if invariants:
            E.invariants = invariants
        if default_inv:
            E.default_inv = default_inv
        if maxpaths:
            E.maxpaths = maxpaths
        try:
            r = setup(E, I)
            self_, args, kw, env = r
            fr = self.ref(q, self_)
            if z3prove_unsat(E.hyps()):
                raise Unsupported('contradictory precondition')
            env0 = env
            if callable(fr):
                pass
            paths = E.explore((lambda: body(E, I, env)) if body else lambda: I.call_function(fr, args, kw, contract_ok=False))
            it.paths = len(paths)
            if not paths:
                raise Unsupported('no feasible path')
            base = E.snapshot()
            for k, p in enumerate(paths):
                E.commit(p)
                E.stack, E.npaths = [], [1]
                if p.out[0] in ('ok', 'ret'):
                    self.sub(E, lambda: post(E, I, env, p.out[1]))
                elif p.out[0] == 'raise':
                    g = raises(E, I, env, p.out[1]) if raises else False
                    E.oblige(g, 'no %s is raised' % p.out[1], assume=False)
                else:
                    raise Unsupported('control flow escapes')
                E.restore(base)
        except Unsupported as e:
            it.status, it.why = 'unsupported', str(e)
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        except PyRaise as e:
            it.status, it.why = 'unsupported', 'raise %s outside exploration' % e.name
        except (RecursionError, z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
            it.status, it.why = 'unsupported', 'engine: %s: %s' % (type(e).__name__, e)
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        it.obls = E.obligations
        it.inlined, it.used, it.lib = sorted(E.inlined), sorted(E.used_contracts), sorted(E.lib_used)
        it.time = time.time() - t0
        return it

    def sub(self, E, f):
        """post-conditions may execute code themselves: explore its branches"""
        for p in E.explore(f):
            if p.out[0] == 'raise':
                raise Unsupported('post-condition raised ' + p.out[1])

    def lemma(self, name, hyps, goal):
        it = Item('lemma ' + name)
        it.obls = [Obligation(name, [zb(h) for h in hyps], zb(goal), 'lemma')]
        self.items.append(it)

    # ------------------------------------------------------------------ several functions at a time
    def parallel(self, fns, jobs=None, force=False):
        """every fn(ctx) generates and discharges its obligations in a process of its own; the results are merged in order.
        A process that dies (a crash of the solver) is started again, with its queries put differently."""
        if os.environ.get('VERIF_SERIAL') or len(fns) < 2 and not force:
            for f in fns:
                f(self)
            return
        jobs = jobs or max(1, 8 // len(fns))
        gc.collect()
        live = [self.spawn(f, jobs) for f in fns]
        try:
            for k, f in enumerate(fns):
                data = self.collect(*live[k])
                for attempt in 1, 2, 3:
                    if data is None:
                        live[k] = self.spawn(f, jobs, attempt)
                        data = self.collect(*live[k])
                if data is None:
                    raise Unsupported('a verification process ended without an answer')
                if isinstance(data, str):
                    raise Unsupported(data)
                for d in data:
                    it = Item(d['fn'])
                    for q in ('status', 'why', 'paths', 'time', 'inlined', 'used', 'lib'):
                        setattr(it, q, d[q])
                    for nm, wh, ok, info, t, sk in d['obls']:
                        o = Obligation(nm, [], z3.BoolVal(ok), wh)
                        o.result, o.info, o.time, o.remote, o.skipped = ok, info, t, True, sk
                        it.obls.append(o)
                    self.items.append(it)
        finally:
            for pid, r in live:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass

    def settle(self, jobs):
        """discharge everything; failures are tried again with more time, and the first ones that stay end the attempt"""
        end = time.time() + 420
        open_ = [o for it in self.items for o in it.obls]
        while open_:
            self.discharge(jobs=jobs, hard=25, limit=max(30, end - time.time()), only=open_, stop=6)
            bad = [o for o in open_ if o.result is False]
            open_ = [o for o in open_ if o.result is None]
            if bad:
                self.discharge(jobs=jobs, hard=60, timeout=15000, limit=max(60, min(150, end - time.time())), only=bad)
                if not all(o.result for o in bad):
                    break
        for o in open_:
            o.result, o.info, o.skipped = False, 'not attempted: another obligation failed', True

    def spawn(self, f, jobs, attempt=0):
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            return pid, r
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            prover.ATTEMPT[0] += attempt
            c = Ctx(self.prop, self.contracts, self.repo)
            try:
                f(c)
                c.settle(jobs)
                data = [dict(fn=it.fn, status=it.status, why=it.why, paths=it.paths, time=it.time, inlined=it.inlined, used=it.used, lib=it.lib,
                             obls=[[o.name, o.where, bool(o.result), getattr(o, 'info', ''), o.time, getattr(o, 'skipped', False)] for o in it.obls]) for it in c.items]
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                data = '%s: %s' % (type(e).__name__, e)
            with os.fdopen(w, 'w') as fh:
                json.dump(data, fh)
            code = 0
        finally:
            os._exit(code)

    @staticmethod
    def collect(pid, r):
        with os.fdopen(r) as fh:
            txt = fh.read()
        os.waitpid(pid, 0)
        try:
            return json.loads(txt)
        except ValueError:
            return None

    # ------------------------------------------------------------------ discharge
    def discharge(self, jobs=8, timeout=4000, depth=3, hard=20, limit=600, only=None, stop=None):
        """one forked process per obligation, ended after `hard` seconds; `limit` seconds in total"""
        obs = [(it, o) for it in self.items for o in it.obls]
        if only is not None:
            ids = {id(o) for o in only}
            obs = [(it, o) for it, o in obs if id(o) in ids]
            for _, o in obs:
                if not getattr(o, 'remote', False):
                    o.result = None
        todo = [k for k in range(len(obs)) if not getattr(obs[k][1], 'remote', False)][::-1]
        live = {}
        end = time.time() + limit
        while todo or live:
            if stop is not None and sum(1 for _, o in obs if o.result is False) >= stop:
                todo = []
            while todo and len(live) < jobs and time.time() < end:
                k = todo.pop()
                o = obs[k][1]
                if z3.is_true(o.goal):
                    o.result, o.info, o.time = True, 'trivial', 0.0
                    continue
                r, wfd = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    t = time.time()
                    try:
                        prover.MBQI[0] = True
                        res = prover.prove(o.hyps, o.goal, timeout, depth)
                        ok, info = bool(res), str(res)
                    except Unsupported as e:
                        ok, info = False, 'prover: ' + str(e)
                    except BaseException as e:
                        ok, info = False, 'prover error: %s: %s' % (type(e).__name__, e)
                    os.write(wfd, json.dumps([ok, info[:4000], time.time() - t]).encode())
                    os._exit(0)
                os.close(wfd)
                live[r] = (pid, k, time.time())
            if not live:
                break
            rd, _, _ = select.select(list(live), [], [], 0.5)
            now = time.time()
            for fd in list(live):
                pid, k, t0 = live[fd]
                o = obs[k][1]
                if fd in rd:
                    data = os.read(fd, 65536)
                    try:
                        o.result, o.info, o.time = json.loads(data.decode())
                    except ValueError:
                        o.result, o.info, o.time = False, 'prover process died', now - t0
                elif now - t0 > hard or now > end:
                    os.kill(pid, signal.SIGKILL)
                    o.result, o.info, o.time = False, 'time limit of %d s' % hard, now - t0
                else:
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
        for it, o in obs:
            if o.result is None and stop is None:
                o.result, o.info = False, 'no answer'
        return [(it, o) for it, o in obs if not o.result]


def z3prove_unsat(h):
    fs = [x for x in h if not prover.has_binder(x)]
    return prover.z3check(fs, 2000) == 'unsat'


# ------------------------------------------------------------------------------ builders for symbolic pre-states

def inst(E, I, cls, **attrs):
    return PInst(E, I.repo.classes[cls], attrs)


def intarr(E, name, *dims, lo=0, hi=None):
    """integer array of symbolic contents"""
    f = Function(E.name(name), *([I_] * len(dims) + [I_]))
    a = PArr.of(E, 'i', dims, lambda idx: f(*[z(i) for i in idx]))
    return a, f


def realarr(E, name, *dims):
    f = Function(E.name(name), *([I_] * len(dims) + [R]))
    a = PArr.of(E, 'r', dims, lambda idx: f(*[z(i) for i in idx]))
    return a, f


I_ = I


def symlist(E, name, n, sort=I):
    f = Function(E.name(name), I_, sort)
    return PList.sym(E, n, lambda i: f(z(i))), f


def label_list(E, name, n):
    """duplicate-free list of labels with its inverse"""
    f = Function(E.name(name), I_, Lbl)
    g = Function(E.name(name + '_pos'), Lbl, I_)
    E.assume(forall(lambda i: imp(inrange(i, n), g(f(i)) == i), I_, pat=lambda i: f(i)))
    return PList.sym(E, n, lambda i: f(z(i)), inv=lambda l: g(lab(l))), f, g


def iff(a, b):
    a, b = zb(a), zb(b)
    return And(Implies(a, b), Implies(b, a))


def pairs_member(E, I, v, a, b):
    """membership of the pair (a, b) in a list, set or view of pairs"""
    from .lib import pairs_has, iterate
    if isinstance(v, Opaque):
        return pairs_has(I, v)((a, b))
    if isinstance(v, PSet):
        return v.membership()((a, b))
    it = iterate(I, v)
    if isinstance(it.n, int):
        return bor(*[veq(it.fn(k), (a, b)) for k in range(it.n)])
    if hasattr(it, 'has'):
        return it.has((a, b))
    return mk_any(lambda k: veq(it.fn(z(k)), (a, b)), it.n)
