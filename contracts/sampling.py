"""The sampling of one trajectory: pre-state, contract of the look-up of a matrix, invariant of the sampling loop, post-condition (C23 and C24)."""
from .common import *
from pyver.values import Unsupported
from pyver.loops import Inv
from pyver.libpd import PFrame, same_label
from pyver.lib import WAIT, RND

AI = z3.ArraySort(Lbl, I_)


class Sampling(Inv):
    """ghost state: M jumps so far, the last of them at time T (exact), the current states S"""
    merging = True

    def __init__(self, env):
        self.env = env

    def ob(self, which, goal, name):
        if which in self.env['want']:
            self.E.oblige(goal, name)

    # ---------------------------------------------------------------- roles of the locals
    def roles(self, f):
        n = self.env['n']
        d = self.scope.d
        fr = [k for k, v in d.items() if isinstance(v, PFrame)]
        ar = [k for k, v in d.items() if isinstance(v, PArr) and v.dt == 'r' and len(v.shape) == 1 and self.E.entails(eq(v.shape[0], n))]
        if len(fr) != 1 or len(ar) != 1:
            raise Unsupported('locals of the sampling loop')
        self.kf, self.ka = fr[0], ar[0]
        self.nums = [k for k, v in d.items() if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) or isz(v) and v.sort() in (I_, R)]

    def begin(self, I, f, it):
        self.I, self.f, self.it, self.E = I, f, it, I.E
        self.scope = f
        self.roles(f)
        self.phase = 'entry'
        self.S, self.M, self.T = z3.K(Lbl, IntVal(0)), IntVal(0), RealVal(0)
        env = self.env
        if self.E.discovering:
            return
        fr, tm = self.scope.d[self.kf], self.scope.d[self.ka]
        lf, n = env['lf'], env['n']
        self.E.oblige(eq(fr.d['n'], 1), 'sampling starts with one row')
        self.shape_of(fr)
        if 'C24' not in env['want']:
            self.S = self.E.fresh(AI, 'first_states')
            self.E.assume(all_in(lambda i: Select(self.S, lf(zi(i))) == zi(fr.d['cell'](lf(zi(i)), 0)), n))
        self.ob('C24', all_in(lambda i: eq(fr.d['cell'](lf(z(i)), 0), 0), n), 'in which all variables are in state 0')
        self.ob('C24', eq(zr(fr.d['cell']('Time', 0)), zr(0)), 'at time 0')
        self.E.oblige(all_in(lambda i: isnan(zr(tm.get(i))), n), 'and in which no waiting time is drawn yet')

    def shape_of(self, fr):
        self.columns(fr)
        if not fr.d.get('obj'):
            raise Unsupported('block of the frame')

    def columns(self, fr):
        env, E = self.env, self.E
        c = fr.d['cols']
        E.oblige(band(eq(c.n, env['n'] + 1), veq(c.get(0), 'Time'), all_in(lambda i: veq(c.get(add(z(i), 1)), env['lf'](z(i))), env['n'])), 'the columns are Time and the variables, in order')

    def havoced(self, E):
        env = self.env
        self.phase = 'start'
        self.S, self.M, self.T = E.fresh(AI, 'states'), E.fresh(I_, 'jumps'), E.fresh(R, 'now')
        self.H, self.HT = E.freshfn('earlier', Lbl, I_, I_), E.freshfn('earlier_time', I_, R)
        S, M, H, HT = self.S, self.M, self.H, self.HT
        E.assume(M >= 0)
        last = lambda r: (lambda c: z3.is_true(c) if isz(c) else bool(c))(simp(eq(r, M)) if isz(eq(r, M)) else eq(r, M))

        def cell(l, r):
            t = same_label(E, l, 'Time')
            if t is not True and t is not False:
                raise Unsupported('an arbitrary column')
            if t:
                return HT(z(r))
            return Select(S, lab(l)) if last(r) else If(zb(eq(r, M)), Select(S, lab(l)), H(lab(l), z(r)))
        self.cell0 = cell
        self.scope.d[self.kf].set(n=conc(M + 1), cell=cell, log=())
        tm = self.scope.d[self.ka]
        self.time0 = tm.reader()
        env['E'] = E

    def start_iteration(self, E, k):
        self.phase = 'start'
        self.M0, self.S0, self.T0 = self.M, self.S, self.T
        self.current()
        self.mark = len(E.trace)

    def current(self):
        """the matrices for the states at this point of the sampling"""
        E, env = self.E, self.env
        F = E.freshfn('Q', Lbl, I_, I_, I_, R)          # variable, position in the answer, row, column
        K, par, vf, lf, lg, S = [env[k] for k in 'K par vf lf lg'.split()] + [self.S]
        pos = lambda v: If(K(v) == 1, Select(S, par(v, 0)), IntVal(0))
        env['F'], env['state'] = F, S
        self.Q = lambda v, a, b: F(v, pos(v), a, b)
        v, q, a, b = bvar(Lbl, 'l'), bvar(I_, 'q'), bvar(I_, 'q'), bvar(I_, 'q')
        # conditional intensity matrices: negative diagonal, off-diagonal entries not negative, rows that sum to zero
        E.assume(ForAll([v, q, a, b], And(Implies(a == b, F(v, q, a, b) < 0), Implies(a != b, F(v, q, a, b) >= 0)), patterns=[F(v, q, a, b)]))

    # ---------------------------------------------------------------- the invariant
    def candidates(self, k):
        env = self.env
        n, lf, vf = [env[q] for q in 'n lf vf'.split()]
        out = [
            ('the current states are valid', lambda k: all_in(lambda i: And(0 <= Select(self.S, lf(zi(i))), Select(self.S, lf(zi(i))) < vf(zi(i))), n), True),
            ('time is not negative', lambda k: self.T >= 0, True),
            ('time is a number', lambda k: Not(isnan(self.T)), True),
        ]
        if 'C24' not in env['want']:
            out.append(('waiting times are not negative', lambda k: all_in(lambda i: Or(isnan(self.tm(i)), self.tm(i) >= 0), n), True))
        out += [] if 'C24' not in env['want'] else [
            ('waiting times end after the last jump', lambda k: all_in(lambda i: Or(isnan(self.tm(i)), self.tm(i) >= self.T), n), True),
            ('the last row has the time of the last jump', lambda k: self.row_time() == RND(self.T, IntVal(4)), True),
            ('the number of jumps is limited', lambda k: Implies(env['max_tr'] != -1, self.M <= env['max_tr']), True),
        ]
        for nm in self.nums:
            out.append(('%s is the time of the last jump' % nm, lambda k, nm=nm: self.num(nm, lambda t: zr(t) == self.T), False))
            out.append(('%s counts the jumps' % nm, lambda k, nm=nm: self.num(nm, lambda t: zr(t) == z3.ToReal(self.M)), False))
        return out

    def num(self, nm, f):
        v = self.scope.d.get(nm, POISON)
        return BoolVal(True) if v is POISON else f(z(v))

    def tm(self, i):
        return zr(self.scope.d[self.ka].get(i))

    def row_time(self):
        return zr(self.scope.d[self.kf].d['cell']('Time', conc(simp(self.M))))

    # ---------------------------------------------------------------- one iteration
    def event(self, kind, why):
        es = [e for e in self.E.trace[self.mark:] if e[0] == kind]
        if len(es) != 1:
            raise Unsupported(why)
        return es[0][1:]

    def ghosts(self):
        E, env = self.E, self.env
        w, m, r = self.event('argmin', 'the next variable is not found by argmin')
        return w, (lambda i: zr(r((zi(i),)))), zr(r((w,)))

    def stop(self, T1):
        env = self.env
        return Or(And(env['max_tr'] != -1, self.M == env['max_tr']), And(env['t_end'] != -1, T1 >= env['t_end']))

    def drawn(self, name=''):
        """the waiting times in force: missing ones drawn with the rates of the current states, the others kept"""
        E, env = self.E, self.env
        n, lf = env['n'], env['lf']
        w, tv, T1 = self.ghosts()
        S, T, t0 = self.S, self.T, lambda i: zr(self.time0((zi(i),)))
        i = E.fresh(I_, 'i')
        E.assume(inrange(i, n))
        s = Select(S, lf(i))
        self.ob('C23', imp(isnan(t0(i)), WAIT(tv(i) - T, 1 / (-self.Q(lf(i), s, s)))), 'missing waiting times are drawn with minus the diagonal intensity of the current state given the parents')
        self.ob('C23', imp(Not(isnan(t0(i))), tv(i) == t0(i)), 'the other waiting times are kept')
        self.ob('C23', all_in(lambda q: tv(q) >= T1, n), 'the variable with the smallest time jumps')
        return w, tv, T1

    def before_end(self, E, k):
        self.M, self.S, self.T = self.M0, self.S0, self.T0
        self.phase = 'end'
        env = self.env
        fr = self.scope.d[self.kf]
        if not isinstance(fr, PFrame):
            raise Unsupported('the trajectory')
        self.w, self.tv, self.T1 = self.ghosts()
        M1 = conc(simp(self.M0 + 1))
        lf = env['lf']
        S1 = E.fresh(AI, 'next_states')
        new = lambda i: zi(fr.d['cell'](lf(zi(i)), M1))
        E.assume(all_in(lambda i: Select(S1, lf(zi(i))) == new(i), env['n']))
        self.M, self.S, self.T = M1, S1, self.T1

    def end_iteration(self, E, k):
        env = self.env
        n, lf, lg, vf, K, par, isl = [env[q] for q in 'n lf lg vf K par isl'.split()]
        S1, M1, T1 = self.S, self.M, self.T
        self.S, self.M, self.T = self.S0, self.M0, self.T0
        w, tv, _ = self.drawn()
        fr = self.scope.d[self.kf]
        cell = fr.d['cell']
        E.oblige(eq(fr.d['n'], M1 + 1), 'one row is added')
        self.shape_of(fr)
        r, i = E.fresh(I_, 'r'), E.fresh(I_, 'i')
        E.assume(And(inrange(r, self.M0 + 1), inrange(i, n)))
        self.ob('C24', band(eq(cell(lf(i), r), self.cell0(lf(i), r)), eq(zr(cell('Time', r)), zr(self.cell0('Time', r)))), 'earlier rows are left as they were')
        new = lambda j: zi(cell(lf(zi(j)), M1))
        self.ob('C24', imp(i != w, new(i) == Select(self.S0, lf(i))), 'no other variable changes')
        self.ob('C24', And(new(w) != Select(self.S0, lf(w)), 0 <= new(w), new(w) < vf(w)), 'the variable that jumps changes to another valid state')
        self.ob('C24', zr(cell('Time', M1)) == RND(T1, IntVal(4)), 'the row has the time of the jump')
        self.ob('C24', zr(cell('Time', M1)) >= zr(self.cell0('Time', self.M0)), 'time does not decrease')
        self.ob('C24', Not(self.stop(T1)), 'no jump beyond the limits')
        if 'C23' not in env['want']:
            return self.advance(S1, M1, T1)
        drawn, m, p = self.event('multinomial', 'the next state is not drawn by multinomial')
        x, one, s = lf(w), K(lf(w)) == 1, Select(self.S0, lf(w))
        pos = Select(self.S0, par(x, 0)) if E.entails(one) else IntVal(0) if E.entails(Not(one)) else If(one, Select(self.S0, par(x, 0)), IntVal(0))
        row = lambda j: env['F'](x, pos, s, zi(j))          # the row of the current state given the states of the parents
        off = mk_sum(lambda j: If(zi(j) == s, RealVal(0), row(j)), vf(lg(x)))
        q = E.fresh(I_, 'q')
        E.assume(inrange(q, vf(w)))
        self.ob('C23', eq(m, vf(w)), 'one probability per state')
        self.ob('C23', new(w) == zi(drawn), 'the new state is the one that was drawn')
        self.ob('C23', zr(p((q,))) == If(q == s, RealVal(0), row(q)) / zr(off), 'with the off-diagonal row of its state given the parents, normalised to one')
        child = mk_any(lambda j: par(lf(i), zi(j)) == lf(w), K(lf(i)))
        self.ob('C23', iff(isnan(self.tm(i)), Or(i == w, child)), 'exactly the waiting times of the variable and of its children are to be redrawn')
        self.ob('C23', imp(Not(isnan(self.tm(i))), self.tm(i) == tv(i)), 'and the others are kept')
        self.advance(S1, M1, T1)

    def advance(self, S1, M1, T1):
        self.S, self.M, self.T = S1, M1, T1


def setup(E, I, want):
    n = E.fresh(I_, 'n')
    labels, lf, lg = label_list(E, 'label', n)
    isl = lambda l: And(0 <= lg(l), lg(l) < n, lf(lg(l)) == l)
    K, par, pinv = Function(E.name('parents'), Lbl, I_), Function(E.name('parent'), Lbl, I_, Lbl), Function(E.name('parent_pos'), Lbl, Lbl, I_)
    vf = Function(E.name('card'), I_, I_)
    v, j = bvar(Lbl, 'l'), bvar(I_, 'q')
    T = lab('Time')
    E.assume(n >= 1)
    E.assume(Not(isl(T)))
    E.assume(forall(lambda i: And(lf(i) != T, vf(i) >= 2), I_, pat=lambda i: lf(i)))
    E.assume(forall(lambda i: vf(i) >= 2, I_, pat=lambda i: vf(i)))
    E.assume(ForAll([v], K(v) >= 0, patterns=[K(v)]))
    E.assume(ForAll([v, j], Implies(zb(inrange(j, K(v))), And(isl(par(v, j)), pinv(v, par(v, j)) == j, par(v, j) != v)), patterns=[par(v, j)]))
    E.assume(ForAll([v, j], par(v, j) != T, patterns=[par(v, j)]))
    x, y, d = bvar(R, 'x'), bvar(R, 'x'), IntVal(4)
    E.assume(ForAll([x, y], Implies(x <= y, RND(x, d) <= RND(y, d)), patterns=[z3.MultiPattern(RND(x, d), RND(y, d))]))
    E.assume(RND(RealVal(0), d) == 0)
    # a missing waiting time is coded by a negative number: waiting times are never negative, and nothing is computed from a missing one (argmin has none)
    E.assume(NAN < 0)
    E.assume(ForAll([x], isnan(x) == (x == NAN), patterns=[isnan(x)]))
    t_end, max_tr = E.fresh(R, 't_end'), E.fresh(I_, 'max_tr')
    E.assume(And(Or(max_tr == -1, max_tr >= 0), Or(t_end == -1, t_end >= 0)))
    E.mins, E.draws = [], []
    parents = PDict.sym(E, lambda l: isl(lab(l)), lambda l: PList.sym(E, K(lab(l)), lambda q: par(lab(l), z(q)), inv=lambda p: pinv(lab(l), lab(p))), keys=(n, lambda i: lf(z(i))))
    env = dict(want=want, n=n, lf=lf, lg=lg, isl=isl, K=K, par=par, vf=vf, t_end=t_end, max_tr=max_tr)
    cims = PDict.sym(E, lambda l: isl(lab(l)), lambda l: inst(E, I, 'SetOfCims', _node_id=lab(l)), keys=(n, lambda i: lf(z(i))))

    def lookup(E, self=None, mask_arr=None, comb=None, **_):
        """the matrices of the table that match the states of the parents (C05): all of them with one parent, the one of the configuration otherwise"""
        x = lab(self.d['_node_id'])
        E.oblige(isl(x), 'a variable of the network')
        if 'C23' not in want:
            return answer(x)
        it = I.iter(mask_arr)
        E.oblige(band(eq(it.n, K(x)), all_in(lambda j: zb(I.truth(it.fn(zi(j)))), K(x))), 'all the parents are selected')
        c = I.iter(comb)
        E.oblige(band(eq(c.n, K(x)), all_in(lambda j: eq(c.fn(zi(j)), Select(env['state'], par(x, zi(j)))), K(x))), 'by their current states')
        return answer(x)

    def answer(x):
        F, m = env['F'], vf(lg(x))
        size = If(K(x) == 1, vf(lg(par(x, 0))), IntVal(1))
        cim = lambda q: inst(E, I, 'ConditionalIntensityMatrix', _state_residence_times=None, _state_transition_matrix=None,
                             _cim=PArr.of(E, 'r', (m, m), lambda ix: F(x, zi(q), zi(ix[0]), zi(ix[1]))))
        return PArr.of(E, 'o', (size,), lambda ix: cim(ix[0]))
    E.contracts = {'SetOfCims.filter_cims_with_mask': lookup}
    g = inst(E, I, 'TrajectoryGenerator', _importer=None, _vnames=labels, _parents=parents, _cims=cims, _generated_trajectory=None)
    env.update(gen=g, labels=labels)
    env['inv'] = Sampling(env)
    env['F'], env['state'] = E.freshfn('Q', Lbl, I_, I_, I_, R), E.fresh(AI, 'states')
    E.default_inv = lambda I_, s_, f, it: env['inv']
    return g, [t_end, max_tr], {}, env


def post(E, I, env, out):
    h = env['inv']
    n, lf, vf = [env[k] for k in 'n lf vf'.split()]
    E.oblige(isinstance(out, PFrame), 'a frame is returned')
    w, tv, T1 = h.drawn()
    h.columns(out)
    h.ob('C24', h.stop(T1), 'sampling stops where asked')
    h.ob('C24', eq(out.d['n'], h.M + 1), 'all the rows are returned')
    r, i = E.fresh(I_, 'r'), E.fresh(I_, 'i')
    E.assume(And(inrange(r, h.M), inrange(i, n)))
    cell = out.d['cell']
    h.ob('C24', band(eq(cell(lf(i), r), h.cell0(lf(i), r)), eq(zr(cell('Time', r)), zr(h.cell0('Time', r)))), 'the rows of the jumps are left as they were')
    h.ob('C24', eq(cell(lf(i), h.M), -1), 'the last row is the end marker')
    h.ob('C24', eq(zr(cell('Time', h.M)), zr(h.cell0('Time', h.M))), 'at the time of the last jump')
    h.ob('C24', eq(env['gen'].d['_generated_trajectory'].d['n'], out.d['n']) if isinstance(env['gen'].d['_generated_trajectory'], PFrame) else False, 'the trajectory is kept')
