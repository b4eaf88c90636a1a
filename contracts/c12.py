"""C12 (and the constraint-based part of C15): the search loops of the constraint-based optimizer."""
import ast
from .common import *
from pyver.values import Unsupported
from pyver.loops import Inv
from pyver.lib import FN

NOTE = ('contracts/c12.py: one_iteration_of_CTPC_algorithm with the search loops of the constraint-based optimizer, for any number of nodes, any matrix of removable edges and any answers of the independence tests '
        '(complete_test is used through its contract: any answer, possibly making the tested edge non-removable). Ghost state: the candidates not yet found independent and the tests that found dependence; '
        'loop invariants over them (every candidate tested with every smaller set; candidates before the position with every set of the present size), variants for termination. '
        'itertools.combinations is axiomatised: every sub-set of the size, in the order of the list. Finite sets: a proper sub-set is smaller.')
TST = z3.ArraySort(Lbl, z3.ArraySort(SetL, B))


def search_state(E, I, tests=True):
    sp, env = sample_path(E, I, edges=False)
    cache = inst(E, I, 'Cache', _list_of_sets_of_parents=PList.of(E, []), _actual_cache=PList.of(E, []))
    est = estimator(E, I, 'StructureConstraintBasedEstimator', sp, env, _cache=cache)
    x = env['x'] = E.fresh(Lbl, 'node')
    isl = env['isl']
    E.assume(isl(x))
    env['j'] = env['lg'](x)
    cur = E.fresh(SetL, 'others')
    a = bvar(Lbl, 'l')
    E.assume(qall([a], Select(cur, a) == And(isl(a), a != x), patterns=[Select(cur, a)]))
    env['ghost'] = inst(E, I, 'ConstraintBasedOptimizer', cur=cur, tested=E.fresh(TST, 'tested'))
    # nothing has been tested yet
    S = bvar(SetL, 'S')
    T = env['ghost'].d['tested']
    E.assume(qall([a, S], Not(Select(Select(T, a), S)), patterns=[Select(Select(T, a), S)]))
    E.assume(qall([S], Card(S) >= 0, [Card(S)]))
    E.contracts = {'StructureConstraintBasedEstimator.complete_test': test_contract(env)}
    E.default_inv = lambda I_, s_, f, it: SearchInv(env, s_, tests)
    return est, env


def test_contract(env):
    """complete_test(parent, child, set, ...): any answer; may make the tested edge non-removable, in which case the answer is dependent; changes nothing else but the cache"""
    def contract(E, self=None, test_parent=None, test_child=None, parent_set=None, child_states_numb=None, tot_vars_count=None, parent_indx=None, child_indx=None, **kw):
        gh = env['ghost']
        cur, T, x, lg = gh.d['cur'], gh.d['tested'], env['x'], env['lg']
        p = lab(test_parent)
        E.oblige(veq(test_child, x), 'the child of the search is tested')
        E.oblige(Select(cur, p), 'the tested parent is a candidate')
        S = set_of(E, parent_set)
        a = bvar(Lbl, 'l')
        E.oblige(qall([a], Implies(Select(S, a), And(Select(cur, a), a != p))), 'the separating set is a set of other candidates')
        E.oblige(eq(child_states_numb, env['vf'](env['j'])), 'the number of states of the child is passed on')
        E.oblige(eq(tot_vars_count, env['n']), 'the number of variables is passed on')
        E.oblige(band(eq(parent_indx, lg(p)), eq(child_indx, env['j'])), 'the positions of the edge are passed on')
        indep, few = E.fresh(B, 'independent'), E.fresh(B, 'few')
        answer = E.branch(indep)
        rem = self.d['_removable_edges_matrix']
        old = rem.reader()
        pi, ci = zi(parent_indx), zi(child_indx)
        rem.write(lambda ix: False if answer else And(few, zi(ix[0]) == pi, zi(ix[1]) == ci), lambda ix: False)
        if answer:
            gh.set(cur=z3.Store(cur, p, BoolVal(False)))
            return True
        gh.set(tested=z3.Store(T, p, z3.Store(Select(T, p), S, BoolVal(True))))
        return False
    return contract


def plain(t):
    """can t be (part of) a pattern?"""
    if not z3.is_app(t):
        return z3.is_var(t)
    if t.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE):
        return False
    return all(plain(c) for c in t.children())


def qall(vs, body, patterns=()):
    return z3.ForAll(vs, body, patterns=[p for p in patterns if plain(p)])


def set_of(E, l):
    return FN['builtins.set'](E.I, l).array()


class SearchInv(Inv):
    def __init__(self, env, s, tests=True):
        self.env, self.s, self.tests = env, s, tests

    def begin(self, I, f, it):
        self.I, self.f, self.it, self.E = I, f, it, I.E
        env = self.env
        gh = env['ghost']
        self.pre = dict(cur=gh.d['cur'], tested=gh.d['tested'], rem=env['est'].d['_removable_edges_matrix'].reader(), lens={id(l): l.n for l in self.lists()})

    def lists(self):
        """lists of labels the search keeps: the locals that have no duplicates"""
        return [v for v in self.f.d.values() if isinstance(v, PList) and v.d['inv'] is not None]

    def ints(self):
        out = []
        for nm, v in self.f.d.items():
            if isinstance(v, int) and not isinstance(v, bool) or isz(v) and v.sort() == I_:
                out.append((nm, lambda nm=nm: self.f.d[nm]))
        return out

    def labels(self):
        return [(nm, lambda nm=nm: self.f.d[nm]) for nm, v in self.f.d.items() if isz(v) and v.sort() == Lbl]

    def havoced(self, E):
        """a list without duplicates that has the members of the set of candidates has as many of them"""
        cur = self.env['ghost'].d['cur']
        for l in self.lists():
            w = E.fresh(Lbl, 'differ')
            E.assume(Or(Card(cur) == zi(l.n), Select(cur, w) != zb(self.mem(l, w))))

    @staticmethod
    def mem(l, a):
        i = l.d['inv'](a)
        return band(inrange(i, l.n), eq(l.get(i), a))

    def variant(self):
        """a loop `while a < b` comes closer to its end with every iteration"""
        t = getattr(self.s, 'test', None)
        if not self.tests or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.Gt))):
            return None
        a, b = self.I.ev(t.left, self.f), self.I.ev(t.comparators[0], self.f)
        return zi(b) - zi(a) if isinstance(t.ops[0], ast.Lt) else zi(a) - zi(b)

    def candidates(self, k):
        env = self.env
        gh, x, j, isl, lg, n = [env[q] for q in 'ghost x j isl lg n'.split()]
        a, y, S = bvar(Lbl, 'a'), bvar(Lbl, 'y'), bvar(SetL, 'S')
        i1, i2 = bvar(I_, 'i'), bvar(I_, 'i')
        cur, T = lambda: gh.d['cur'], lambda: gh.d['tested']
        rem = lambda p, q: zb(env['est'].d['_removable_edges_matrix'].get(p, q))
        rem0 = lambda p, q: env['rem'](zi(p), zi(q))
        g = lambda: self.graph()
        sub = lambda S, p: qall([y], Implies(Select(S, y), And(Select(cur(), y), y != p)), patterns=[Select(S, y)])
        tst = lambda p, S: Select(Select(T(), p), S)
        out = [
            ('candidates are other nodes', lambda k: qall([a], Implies(Select(cur(), a), And(isl(a), a != x)), patterns=[Select(cur(), a)]), True),
            ('edges that may not be removed are kept', lambda k: qall([a], Implies(And(isl(a), a != x, Not(rem0(lg(a), j))), Select(cur(), a)), patterns=[Select(cur(), a)]), True),
            ('edges only become non-removable', lambda k: qall([i1, i2], Implies(rem(i1, i2), rem0(i1, i2)), patterns=[rem(i1, i2)]), True),
            ('edges into other nodes stay as they were', lambda k: qall([i1, i2], Implies(i2 != j, rem(i1, i2) == rem0(i1, i2)), patterns=[rem(i1, i2)]), True),
        ]
        gr = env['graph']()
        if gr is not None:
            out.append(('the graph has the edges from the candidates', lambda k: qall([a, y], zb(gr.edge(a, y)) == And(y == x, Select(cur(), a))), False))
        if k is None:
            for l in self.lists():
                out.append(('a list holds the candidates', lambda k, l=l: qall([a], zb(self.mem(l, a)) == Select(cur(), a), patterns=[Select(cur(), a)]), False))
                out.append(('a list does not grow', lambda k, l=l: zb(le(l.n, self.pre['lens'][id(l)])), False))
            for nv, v in self.ints():
                out.append(('%s is not negative' % nv, lambda k, v=v: zi(v()) >= 0, False))
                if not self.tests:
                    continue
                out.append(('candidates are tested with every smaller set than %s' % nv, lambda k, v=v: qall([a, S], Implies(And(Select(cur(), a), rem(lg(a), j), sub(S, a), Card(S) < zi(v())), tst(a, S)), patterns=[tst(a, S)]), False))
                for nw, w in self.ints():
                    if nw != nv:
                        for l in self.lists():
                            out.append(('candidates before %s are tested with every set of size %s' % (nv, nw),
                                        lambda k, v=v, w=w, l=l: qall([a, S], Implies(And(Select(cur(), a), zi(l.d['inv'](a)) < zi(v()), rem(lg(a), j), sub(S, a), Card(S) == zi(w())), tst(a, S)), patterns=[tst(a, S)]), False))
        else:
            pre = self.pre
            out.append(('tests are not forgotten', lambda k: qall([a, S], Implies(Select(Select(pre['tested'], a), S), tst(a, S)), patterns=[tst(a, S)]), False))
            out.append(('edges do not become removable', lambda k: qall([i1, i2], Implies(rem(i1, i2), zb(pre['rem']((i1, i2)))), patterns=[rem(i1, i2)]), False))
            out.append(('the candidates stay', lambda k: gh.d['cur'] == pre['cur'], False))
            cs = getattr(self.it, 'setof', None)
            t = bvar(I_, 't')
            if cs is not None:
                for nv, v in self.labels() if self.tests else ():
                    out.append(('%s was tested with the sets so far' % nv, lambda k, v=v: qall([t], Implies(And(0 <= t, t < zi(k)), tst(v(), cs(t))), patterns=[cs(t)]), False))
        return out


def post(E, I, env, out, tests=True):
    gh, x, j, isl, lg = [env[q] for q in 'ghost x j isl lg'.split()]
    cur, T = gh.d['cur'], gh.d['tested']
    rem = env['est'].d['_removable_edges_matrix']
    a, b, S, y = E.fresh(Lbl, 'a'), E.fresh(Lbl, 'b'), E.fresh(SetL, 'S'), bvar(Lbl, 'y')
    E.oblige(iff(pairs_member(E, I, out, a, b), And(b == x, Select(cur, a))), 'the edges returned are those from the candidates that no test found independent')
    E.oblige(Implies(And(isl(a), a != x, Not(env['rem'](lg(a), j))), pairs_member(E, I, out, a, x)), 'every edge into the node that may not be removed is returned')
    if not tests:
        return
    sub = qall([y], Implies(Select(S, y), And(Select(cur, y), y != a)), patterns=[Select(S, y)])
    # a finite set of members of a set other than one of them is smaller
    E.assume(Implies(And(Select(cur, a), sub), Card(S) < Card(cur)))
    E.oblige(Implies(And(Select(cur, a), zb(rem.get(lg(a), j)), sub), Select(Select(T, a), S)), 'a remaining candidate that may be removed was found dependent given every set of other candidates')


def setup(tests=True):
    def s(E, I):
        E.I = I
        est, env = search_state(E, I, tests)
        env['graph'] = lambda: next((v.d['_graph'] for v in I.E.objs if isinstance(v, PInst) and v.cls is I.repo.classes['NetworkGraph'] and '_graph' in v.d), None)
        return est, [env['x'], env['n']], {}, env
    return s


def run(ctx):
    ctx.verify('StructureConstraintBasedEstimator.one_iteration_of_CTPC_algorithm', setup(), post)
