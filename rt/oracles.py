"""Runtime oracles, one class per property: gen(rng, i) -> case, run(case) -> list of failure messages."""
import contextlib
import hashlib
import itertools
import json
import math
import os
import shutil
import tempfile

from gen import *

import PyCTBN  # noqa
from PyCTBN.PyCTBN.utility.sample_importer import SampleImporter
from PyCTBN.PyCTBN.utility.json_importer import JsonImporter
from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
from PyCTBN.PyCTBN.utility.cache import Cache
from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath
from PyCTBN.PyCTBN.structure_graph.structure import Structure
from PyCTBN.PyCTBN.structure_graph.network_graph import NetworkGraph
from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
from PyCTBN.PyCTBN.structure_graph.set_of_cims import SetOfCims
from PyCTBN.PyCTBN.structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
from PyCTBN.PyCTBN.estimators.fam_score_calculator import FamScoreCalculator
from PyCTBN.PyCTBN.estimators.structure_constraint_based_estimator import StructureConstraintBasedEstimator
from PyCTBN.PyCTBN.estimators.structure_score_based_estimator import StructureScoreBasedEstimator


class Base:
    @staticmethod
    def nontrivial(case):
        return True


def unit(*key):
    """a number in [0, 1) that depends on the key only"""
    return int(hashlib.md5(repr(key).encode()).hexdigest()[:12], 16) / float(16 ** 12)


# ---------------------------------------------------------------- statistics
def family_case(rng, i):
    ds = dataset(rng, maxn=5, lo=1 if rng.random() < .15 else 2)
    ls = ds['labels']
    node = rng.choice(ls)
    k = rng.randint(0, len(ls) - 1)
    ps = rng.sample([l for l in ls if l != node], min(k, 3))
    if len(ps) == 3:
        ds['cards'] = [min(c, 6) for c in ds['cards']]
        for tr in ds['trs']:
            for r in tr:
                for j in range(len(ls)):
                    r[j + 1] = min(r[j + 1], ds['cards'][j] - 1)
    edges = [(p, node) for p in ps]
    others = [(a, b) for a in ls for b in ls if a != b and b != node and rng.random() < .3]
    edges += others
    rng.shuffle(edges)
    return dict(ds=ds, node=node, parents=ps, edges=edges, again=rng.random() < .4)


def family(case):
    ds = case['ds']
    sp = sample_path(ds)
    g = network(sp, [tuple(e) for e in case['edges']])
    cims = estimate(sp, g, case['node'])
    if case.get('again'):
        cims = estimate(sp, g, case['node'])
    idx = {l: i for i, l in enumerate(ds['labels'])}
    d = idx[case['node']]
    ps = sorted(idx[p] for p in case['parents'])
    return ds, sp, g, cims, d, ps


class C01(Base):
    """A case is a data set (1-5 variables of mixed cardinalities, 1-4 trajectories), a node and a parent set; residence times compared with a row-by-row count. Every case is non-trivial (at least one pair of rows)."""
    gen = staticmethod(family_case)

    @staticmethod
    def run(case):
        ds, sp, g, cims, d, ps = family(case)
        cf, T, M = stats(ds, d, ps)
        out = []
        if len(cims.actual_cims) != len(cf):
            return ['%d matrices for %d parent configurations' % (len(cims.actual_cims), len(cf))]
        tot = 0
        for i, c in enumerate(cf):
            t = np.asarray(cims.actual_cims[i].state_residence_times)
            tot += float(t.sum())
            for x in range(ds['cards'][d]):
                if t.shape != (ds['cards'][d],) or not close(t[x], T[c][x]):
                    out.append('residence time of state %d under %s is %s, not %s' % (x, c, t[x] if x < t.size else None, T[c][x]))
                    return out
        whole = sum(p[0] for p in pairs(ds))
        if not close(tot, whole):
            out.append('residence times sum to %s, observed time is %s' % (tot, whole))
        return out


class C02(Base):
    """As C01, transition counts compared with a row-by-row count."""
    gen = staticmethod(family_case)

    @staticmethod
    def run(case):
        ds, sp, g, cims, d, ps = family(case)
        cf, T, M = stats(ds, d, ps)
        if len(cims.actual_cims) != len(cf):
            return ['%d matrices for %d parent configurations' % (len(cims.actual_cims), len(cf))]
        for i, c in enumerate(cf):
            m = np.asarray(cims.actual_cims[i].state_transition_matrix)
            if m.tolist() != M[c]:
                return ['transition counts under %s are %s, not %s' % (c, m.tolist(), M[c])]


class C03(Base):
    """A case is a list of 0-4 parent cardinalities and, for every other case, a data set whose matrices are compared with the row of the table they belong to."""

    @staticmethod
    def gen(rng, i):
        cs = [rng.choice([1, 2, 2, 3, 4, 5, 11]) for _ in range(rng.randint(0, 4))]
        return dict(cs=cs, fam=family_case(rng, i) if i % 2 else None)

    @staticmethod
    def run(case):
        cs = case['cs']
        tb = np.asarray(NetworkGraph.build_p_comb_structure_for_a_node(list(cs)))
        exp = [list(c) for c in configs(cs)]
        if tb.tolist() != exp:
            return ['table for cardinalities %s is %s, not %s' % (cs, tb.tolist()[:20], exp[:20])]
        if case['fam']:
            ds, sp, g, cims, d, ps = family(case['fam'])
            cf, T, M = stats(ds, d, ps)
            if [tuple(r) for r in np.asarray(cims.p_combs).tolist()] != cf:
                return ['table of the node is %s, not %s' % (np.asarray(cims.p_combs).tolist()[:20], cf[:20])]
            for i, c in enumerate(cf):
                if np.asarray(cims.actual_cims[i].state_transition_matrix).tolist() != M[c] or any(not close(a, b) for a, b in zip(cims.actual_cims[i].state_residence_times, T[c])):
                    return ['matrix %d does not describe row %d of the table, %s' % (i, i, c)]


def check_cim(o, T, M, tag):
    n = len(T)
    C = np.asarray(o.cim)
    if C.shape != (n, n):
        return ['%s: matrix of shape %s' % (tag, C.shape)]
    for x in range(n):
        for y in range(n):
            e = (1 - M[x][x]) / (T[x] + 1) if x == y else (M[x][y] + 1) / (T[x] + 1)
            if not close(C[x, y], e):
                return ['%s: intensity (%d, %d) is %s, not %s' % (tag, x, y, C[x, y], e)]
    if np.asarray(o.state_transition_matrix).tolist() != M:
        return ['%s: the transition counts are now %s' % (tag, np.asarray(o.state_transition_matrix).tolist())]
    if not all(close(a, b) for a, b in zip(o.state_residence_times, T)):
        return ['%s: the residence times are now %s' % (tag, np.asarray(o.state_residence_times).tolist())]
    return []


class C04(Base):
    """A case is 1-6 pairs of a residence time vector and a count matrix, turned into a set of intensity matrices directly and, for every other case, through the estimation of a node."""

    @staticmethod
    def gen(rng, i):
        n, c = rng.choice([1, 2, 3, 4, 11]), rng.randint(1, 6)
        Ts = [[rng.choice([0, 0, rng.random() * 10, rng.randint(0, 5)]) for _ in range(n)] for _ in range(c)]
        Ms = [[[rng.choice([0, rng.randint(0, 9)]) for _ in range(n)] for _ in range(n)] for _ in range(c)]
        for m in Ms:
            for x in range(n):
                m[x][x] = sum(m[x][y] for y in range(n) if y != x)
        return dict(n=n, T=Ts, M=Ms, fam=family_case(rng, i) if i % 3 == 2 else None, floats=i % 4 == 1)

    @staticmethod
    def run(case):
        out = []
        for T, M in zip(case['T'], case['M']):
            Ta, Ma = np.array(T, dtype=float), np.array(M, dtype=float if case.get('floats') else int)
            o = ConditionalIntensityMatrix(state_residence_times=Ta, state_transition_matrix=Ma)
            o.compute_cim_coefficients()
            out += check_cim(o, T, M, 'one matrix')
            if Ma.tolist() != M or Ta.tolist() != T:
                out.append('the arrays passed in were modified')
        c = len(case['T'])
        s = SetOfCims('n', [c] if c > 1 else [], case['n'], np.arange(c).reshape(-1, 1))
        s.build_cims(np.array(case['T'], dtype=float), np.array(case['M'], dtype=int))
        if len(s.actual_cims) != c or s.get_cims_number() != c:
            out.append('%d matrices for %d configurations' % (len(s.actual_cims), c))
        else:
            for k in range(c):
                out += check_cim(s.actual_cims[k], case['T'][k], case['M'][k], 'configuration %d' % k)
        if case['fam']:
            ds, sp, g, cims, d, ps = family(case['fam'])
            cf, T, M = stats(ds, d, ps)
            if len(cims.actual_cims) != len(cf):
                out.append('%d matrices for %d configurations' % (len(cims.actual_cims), len(cf)))
            else:
                for k, cc in enumerate(cf):
                    out += check_cim(cims.actual_cims[k], T[cc], M[cc], 'estimated, configuration %s' % (cc,))
        return out[:4]


class C05(Base):
    """A case is a set of intensity matrices with 0-4 parents, a mask and a combination of states (matching, absent or of another length than a mask of one); the answer is compared object by object."""

    @staticmethod
    def gen(rng, i):
        cs = [rng.choice([1, 2, 2, 3, 4, 10]) for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4]))]
        k = len(cs)
        mask = [rng.random() < .6 for _ in range(k)]
        if rng.random() < .3:
            mask = [True] * k
        if rng.random() < .1:
            mask = [False] * k
        comb = [rng.randrange(c + (1 if rng.random() < .1 else 0)) for c, m in zip(cs, mask) if m]
        return dict(cs=cs, mask=mask, comb=comb, shuffle=rng.random() < .3, as_array=rng.random() < .7, order=rng.randrange(10 ** 6))

    @staticmethod
    def run(case):
        import random as _r
        cf = configs(case['cs'])
        if case['shuffle']:
            _r.Random(case['order']).shuffle(cf)
        objs = [ConditionalIntensityMatrix(cim=np.eye(2) * (i + 1)) for i in range(len(cf))]
        arr = np.array(objs) if case['as_array'] else list(objs)
        combs = np.array(cf) if case['cs'] else np.array([[]], dtype=int)
        s = SetOfCims('n', list(case['cs']), 2, combs, cims=arr)
        r = list(s.filter_cims_with_mask(np.array(case['mask'], dtype=bool), np.array(case['comb'], dtype=int) if case['order'] % 2 else list(case['comb'])))
        if len(case['mask']) <= 1:
            exp = objs
        else:
            exp = [o for o, c in zip(objs, cf) if [x for x, m in zip(c, case['mask']) if m] == case['comb']]
        if [id(o) for o in r] != [id(o) for o in exp]:
            return ['mask %s and states %s select %s, not %s' % (case['mask'], case['comb'], [objs.index(o) if o in objs else '?' for o in r], [objs.index(o) for o in exp])]


class C06(Base):
    """A case is a data set imported through a list of frames (any row labels) or a JSON file; the result is compared with the pairs of consecutive rows."""

    @staticmethod
    def gen(rng, i):
        ds = dataset(rng, maxn=6)
        idx = rng.choice(['default', 'default', 'offset', 'constant', 'reversed', 'text'])
        return dict(ds=ds, index=idx, via=rng.choice(['frames', 'frames', 'json']))

    @staticmethod
    def run(case):
        ds = case['ds']
        if not pairs(ds):
            return
        if case['via'] == 'frames':
            fs = frames(ds)
            for k, f in enumerate(fs):
                m = len(f)
                f.index = {'default': list(range(m)), 'offset': list(range(7 * k, 7 * k + m)), 'constant': [3] * m, 'reversed': list(range(m))[::-1], 'text': ['r%d' % (q % 5) for q in range(m)]}[case['index']]
            keep = [f.copy(deep=True) for f in fs]
            im = SampleImporter(fs, variables(ds), None)
            im.import_data()
            for a, b in zip(fs, keep):
                if not a.equals(b) or list(a.columns) != list(b.columns) or list(a.index) != list(b.index):
                    return ['a frame passed in was modified']
        else:
            d = tempfile.mkdtemp()
            try:
                p = os.path.join(d, 'd.json')
                recs = [[dict(zip([ds['time']] + ds['labels'], r)) for r in tr] for tr in ds['trs']]
                json.dump([{'samples': recs, 'dyn.str': [], 'variables': [dict(Name=l, Value=c) for l, c in zip(ds['labels'], ds['cards'])]}], open(p, 'w'))
                im = JsonImporter(p, 'samples', 'dyn.str', 'variables', ds['time'], 'Name')
                im.import_data(0)
            finally:
                shutil.rmtree(d)
        out = []
        if list(im.sorter) != ds['labels']:
            return ['the variables are %s, not %s' % (im.sorter, ds['labels'])]
        cc = im.concatenated_samples
        if cc.shape[1] != 1 + 2 * len(ds['labels']):
            return ['%d columns imported' % cc.shape[1]]
        if list(cc.columns)[:1 + len(ds['labels'])] != [ds['time']] + ds['labels']:
            out.append('columns %s' % list(cc.columns))
        exp = [[dt] + list(a) + list(b) for dt, a, b in pairs(ds)]
        got = [[float(v) for v in r] for r in cc.to_numpy().tolist()]
        out += C06.diff(exp, got, 'imported')
        sp = SamplePath(im)
        sp.build_trajectories()
        t = sp.trajectories
        got = [[float(a)] + [float(v) for v in b] for a, b in zip(t.times.tolist(), t.complete_trajectory.tolist())]
        out += C06.diff(exp, got, 'in the trajectory')
        if np.asarray(t.trajectory).tolist() != [list(a) for _, a, _ in pairs(ds)] or t.size() != len(exp):
            out.append('the states before are not the first half of the columns')
        return out

    @staticmethod
    def diff(exp, got, what):
        if len(exp) != len(got):
            return ['%d rows %s, not %d' % (len(got), what, len(exp))]
        for i, (a, b) in enumerate(zip(exp, got)):
            if len(a) != len(b) or any(not close(x, y) for x, y in zip(a, b)):
                return ['row %d %s is %s, not %s' % (i, what, b, a)]
        return []


class C07(Base):
    """A case is a data set, declared variables in the same or another order or set, and declared edges or none."""

    @staticmethod
    def gen(rng, i):
        ds = dataset(rng, maxn=6, n_traj=1, rows=4)
        ls = list(ds['labels'])
        perm = list(range(len(ls)))
        kind = rng.choice(['same', 'same', 'permuted', 'renamed'])
        if kind == 'permuted' and len(ls) > 1:
            a, b = rng.sample(range(len(ls)), 2)
            perm[a], perm[b] = perm[b], perm[a]
        edges = random_edges(rng, ls, .4) if rng.random() < .8 else None
        return dict(ds=ds, perm=perm, rename=rng.randrange(len(ls)) if kind == 'renamed' else None, edges=edges, extra=rng.random() < .2)

    @staticmethod
    def run(case):
        ds = case['ds']
        dl = [ds['labels'][k] for k in case['perm']]
        if case['rename'] is not None:
            dl[case['rename']] = 'another'
        dc = [ds['cards'][k] for k in case['perm']]
        var = pd.DataFrame(list(zip(dl, dc)), columns=['Name', 'Value'])
        if case['extra']:
            var['Note'] = 'x'
            var.index = [5 - 2 * k for k in range(len(var))]
        pr = None if case['edges'] is None else pd.DataFrame([tuple(e) for e in case['edges']], columns=['From', 'To'])
        im = SampleImporter(frames(ds), var, pr)
        im.import_data()
        sp = SamplePath(im)
        sp.build_trajectories()
        if dl != ds['labels']:
            try:
                sp.build_structure()
            except Exception:
                return
            return ['columns %s and variables %s were accepted: %s' % (ds['labels'], dl, sp.structure.nodes_labels)]
        sp.build_structure()
        st = sp.structure
        out = []
        if list(st.nodes_labels) != dl:
            out.append('labels %s, not %s' % (st.nodes_labels, dl))
        if [int(x) for x in st.nodes_indexes] != list(range(len(dl))):
            out.append('indexes %s' % list(st.nodes_indexes))
        if [int(x) for x in st.nodes_values] != dc:
            out.append('cardinalities %s, not %s' % (list(st.nodes_values), dc))
        if [tuple(e) for e in st.edges] != [tuple(e) for e in (case['edges'] or [])]:
            out.append('edges %s, not %s' % (st.edges, case['edges']))
        if st.total_variables_number != len(dl) or sp.total_variables_count != len(dl):
            out.append('%s variables counted' % st.total_variables_number)
        if bool(sp.has_prior_net_structure) != bool(case['edges']):
            out.append('prior structure reported: %s' % sp.has_prior_net_structure)
        for k, l in enumerate(dl):
            if st.get_node_id(k) != l or int(st.get_node_indx(l)) != k or st.get_positional_node_indx(l) != k or int(st.get_states_number(l)) != dc[k]:
                out.append('look-ups of %s disagree' % l)
        exp = [a[:] for _, a, _ in pairs(ds)]
        if np.asarray(sp.trajectories.trajectory).tolist() != exp:
            out.append('column i of the trajectory is not variable i')
        return out


def fam_score(Ts, Ms, tau, alpha):
    s = 0.0
    for T, M in zip(Ts, Ms):
        n = len(T)
        axx = alpha / (n - 1)
        for x in range(n):
            m = M[x][x]
            s += math.lgamma(alpha + m + 1) + (alpha + 1) * math.log(tau) - math.lgamma(alpha + 1) - (alpha + m + 1) * math.log(tau + T[x])
            s += math.lgamma(alpha) - math.lgamma(alpha + m)
            for y in range(n):
                if y != x:
                    s += math.lgamma(axx + M[x][y]) - math.lgamma(axx)
    return s


class C08(Base):
    """A case is 1-6 configurations of residence times and counts of a node with 2-11 states and a pair of hyperparameters; the score is compared with the closed form written with math.lgamma."""

    @staticmethod
    def gen(rng, i):
        c = C04.gen(rng, 0)
        n = rng.choice([2, 2, 3, 4, 11])
        k = rng.randint(1, 6)
        Ts = [[rng.choice([0, rng.random() * 50, rng.randint(0, 5)]) for _ in range(n)] for _ in range(k)]
        Ms = [[[rng.choice([0, rng.randint(0, 30)]) for _ in range(n)] for _ in range(n)] for _ in range(k)]
        for m in Ms:
            for x in range(n):
                m[x][x] = sum(m[x][y] for y in range(n) if y != x)
        return dict(T=Ts, M=Ms, tau=rng.choice([0.1, 1, 2.5, rng.random() + .01]), alpha=rng.choice([1, 0.5, 3, rng.random() * 4 + .05]))

    @staticmethod
    def run(case):
        cs = []
        for T, M in zip(case['T'], case['M']):
            o = ConditionalIntensityMatrix(state_residence_times=np.array(T, dtype=float), state_transition_matrix=np.array(M, dtype=int))
            o.compute_cim_coefficients()
            cs.append(o)
        exp = fam_score(case['T'], case['M'], case['tau'], case['alpha'])
        got = FamScoreCalculator().get_fam_score(np.array(cs), tau_xu=case['tau'], alpha_xu=case['alpha'])
        out = []
        if not close(got, exp, 1e-8, 1e-7):
            out.append('score %s, closed form %s' % (got, exp))
        if case['tau'] == 0.1 and case['alpha'] == 1:
            got = FamScoreCalculator().get_fam_score(np.array(cs))
            if not close(got, exp, 1e-8, 1e-7):
                out.append('default score %s, closed form %s' % (got, exp))
        return out


class C09(Base):
    """A case is a sequence of 5-40 insertions, look-ups and clears over subsets of 4 labels, replayed against a reference list."""

    @staticmethod
    def gen(rng, i):
        names = labels(rng, 4)
        ops = []
        for k in range(rng.randint(5, 40)):
            s = rng.sample(names, rng.randint(0, 4 if rng.random() < .7 else 2))
            ops.append([rng.choice(['put', 'put', 'find', 'find', 'find', 'clear' if rng.random() < .3 else 'find']), s])
        return dict(ops=ops)

    @staticmethod
    def run(case):
        c, ref = Cache(), []
        for k, (op, s) in enumerate(case['ops']):
            if op == 'put':
                o = SetOfCims('n%d' % k, [], 2, None, cims=np.array([k]))
                c.put(set(s), o)
                ref.append((frozenset(s), o))
            elif op == 'clear':
                c.clear()
                ref = []
            for q in {frozenset(s)} | {frozenset(x) for _, x in case['ops'][:8]}:
                exp = next((o for f, o in ref if f == q), None)
                got = c.find(set(q))
                if got is not exp:
                    return ['after %s: looking up %s gives %s, not %s' % (case['ops'][:k + 1][-6:], sorted(q), getattr(got, '_node_id', got), getattr(exp, '_node_id', exp))]


# ---------------------------------------------------------------- constraint based
def tiny(rng, n=None, maxn=4, lo=2, hi=4):
    return dataset(rng, n=n or rng.randint(2, maxn), rows=rng.choice([12, 40]), n_traj=rng.randint(1, 2), lo=lo, hi=hi, big=0.0)


def cim_of(T, M):
    o = ConditionalIntensityMatrix(state_residence_times=np.array(T, dtype=float), state_transition_matrix=np.array(M, dtype=int))
    o.compute_cim_coefficients()
    return o


class C10(Base):
    """A case is two matrices of residence times and counts (similar or unrelated, zero counts included) of a child with 2-5 states, significance levels and a threshold; the answer is compared with the decision rule written independently. Cases within 1e-9 of a quantile or of the threshold are skipped."""

    @staticmethod
    def gen(rng, i):
        n = rng.choice([2, 2, 3, 3, 4, 5])
        lo, hi = rng.choice([(0, 3), (1, 12), (20, 60), (100, 300)])
        T1 = [rng.random() * hi + .1 for _ in range(n)]
        M1 = [[rng.randint(lo, hi) if x != y else 0 for y in range(n)] for x in range(n)]
        f = rng.choice([.3, 1, 1, 2])
        sim = rng.random()
        T2 = [t * f * (1 + (rng.random() - .5) * sim * .5) for t in T1]
        M2 = [[max(0, int(m * f * (1 + (rng.random() - .5) * sim * .8))) for m in r] for r in M1]
        if rng.random() < .2:
            T2 = [rng.random() * hi + .1 for _ in range(n)]
        if rng.random() < .3:
            x, y = rng.sample(range(n), 2)
            M2[x][y] = rng.randint(lo, hi) * 2
        if rng.random() < .3:
            x = rng.randrange(n)
            T2[x] *= rng.choice([.3, .6, 1.6, 3])
        for M in (M1, M2):
            for x in range(n):
                M[x][x] = 0
                M[x][x] = sum(M[x])
        cs = [rng.randint(2, 4) for _ in range(rng.randint(0, 3))]
        return dict(n=n, T1=T1, M1=M1, T2=T2, M2=M2, exp=rng.choice([.1, .05, .01, .3]), chi=rng.choice([.1, .05, .01, .3]), thr=rng.choice([25, 0, 1, 5, 100]), pv=rng.randint(2, 4), cs=cs, ds=tiny(rng, n=3), pi=rng.randrange(3), ci=rng.randrange(3))

    @staticmethod
    def run(case):
        from scipy.stats import f as fd, chi2 as cd
        n, T1, T2, M1, M2 = [case[k] for k in ('n', 'T1', 'T2', 'M1', 'M2')]
        est = StructureConstraintBasedEstimator(sample_path(case['ds']), case['exp'], case['chi'], [], case['thr'])
        df = (n - 1) ** 2 * case['pv'] * int(np.prod(case['cs'] or [1]))
        out = []
        if int(est.compute_thumb_value(case['pv'], n, np.array(case['cs'], dtype=int))) != df:
            out.append('degrees of freedom %s, not %s' % (est.compute_thumb_value(case['pv'], n, case['cs']), df))
        before = np.array(est._removable_edges_matrix)
        tot = sum(M1[x][x] for x in range(n))
        if abs(tot / df - case['thr']) < 1e-9 and n > 2 and case['thr'] != 0:
            pass
        few = n > 2 and tot / df < case['thr']
        ok = True
        for x in range(n):
            r1, r2 = M1[x][x], M2[x][x]
            q1, q2 = (1 - r1) / (T1[x] + 1), (1 - r2) / (T2[x] + 1)
            if q1 == 0:
                F = math.copysign(math.inf, q2) if q2 else math.nan
                if r1 == 1 and q2 != 0:
                    F = -math.inf if q2 < 0 else math.inf
                    return out  # sign of a zero denominator: out of scope
            else:
                F = q2 / q1
            lo, hi = float(fd.ppf(case['exp'] / 2, r1, r2)), float(fd.ppf(1 - case['exp'] / 2, r1, r2))
            if any(v == v and abs(F - v) < 1e-9 * max(1, abs(v)) for v in (lo, hi)):
                return out
            if F < lo or F > hi:
                ok = False
            if r1 and r2:
                K, L = math.sqrt(r1 / r2), math.sqrt(r2 / r1)
                terms = [(K * M2[x][y] - L * M1[x][y]) ** 2 / (M1[x][y] + M2[x][y]) if M1[x][y] + M2[x][y] else math.nan for y in range(n) if y != x]
                chi = sum(terms)
                qu = float(cd.ppf(1 - case['chi'], n - 1))
                if chi == chi and abs(chi - qu) < 1e-9 * max(1, qu):
                    return out
                if chi > qu:
                    ok = False
            elif r1 or r2:
                if few or not ok:
                    continue
                # a zero exit count makes the statistic infinite or undefined
                with np.errstate(all='ignore'):
                    K, L = np.sqrt(np.float64(r1) / np.float64(r2)), np.sqrt(np.float64(r2) / np.float64(r1))
                    chi = sum((K * M2[x][y] - L * M1[x][y]) ** 2 / np.float64(M1[x][y] + M2[x][y]) for y in range(n) if y != x)
                if chi > float(cd.ppf(1 - case['chi'], n - 1)):
                    ok = False
        exp = (not few) and ok
        with np.errstate(all='ignore'):
            c1, c2 = cim_of(T1, M1), cim_of(T2, M2)
            got = est.independence_test(n, c1, c2, df if n > 2 else 0.0, case['pi'], case['ci'])
        if bool(got) != exp:
            out.append('answer %s, the rule says %s (too few transitions: %s)' % (got, exp, few))
        want = before.copy()
        if few:
            want[case['pi']][case['ci']] = False
        if not np.array_equal(np.asarray(est._removable_edges_matrix), want):
            out.append('removable edges changed: %s' % np.argwhere(np.asarray(est._removable_edges_matrix) != want).tolist())
        out += check_cim(c1, T1, M1, 'first') + check_cim(c2, T2, M2, 'second')
        return out


class RecIndep(StructureConstraintBasedEstimator):
    prob = 1.0
    salt = 0

    def independence_test(self, child_states_numb, cim1, cim2, thumb_value, parent_indx, child_indx):
        k1 = key_of(cim1.state_residence_times, cim1.state_transition_matrix)
        k2 = key_of(cim2.state_residence_times, cim2.state_transition_matrix)
        r = unit(self.salt, k1, k2) < self.prob
        self.log.append((k1, k2, child_states_numb, float(thumb_value), int(parent_indx), int(child_indx)))
        return r


def key_of(T, M):
    return (tuple(round(float(t), 6) for t in T), tuple(tuple(int(v) for v in r) for r in np.asarray(M)))


class C11(Base):
    """A case is a data set, a child and a sequence of 1-8 conditional tests on it with the cache shared between them; the pairs handed to the pairwise test (replaced by a recorder that answers by content) are compared with brute-force statistics."""

    @staticmethod
    def gen(rng, i):
        ds = dataset(rng, n=rng.randint(2, 5), rows=rng.choice([30, 60]), n_traj=rng.randint(1, 2), big=.05)
        ls = ds['labels']
        child = rng.choice(ls)
        tests = []
        oth = [l for l in ls if l != child]
        for _ in range(rng.randint(1, 8)):
            p = rng.choice(oth)
            rest = [l for l in oth if l != p]
            tests.append([p, rng.sample(rest, rng.randint(0, min(3, len(rest))))])
        return dict(ds=ds, child=child, tests=tests, prob=rng.choice([1, 1, .95, .7, .3]), salt=rng.randrange(1000), real=rng.random() < .3)

    @staticmethod
    def run(case):
        ds, child = case['ds'], case['child']
        idx = {l: i for i, l in enumerate(ds['labels'])}
        sp = sample_path(ds)
        est = RecIndep(sp, .1, .1, [], 25)
        est.prob, est.salt = case['prob'], case['salt']
        d = idx[child]
        n = ds['cards'][d]
        memo = {}

        def st(ps):
            if ps not in memo:
                memo[ps] = stats(ds, d, ps)
            return memo[ps]
        for p, S in case['tests']:
            est.log = []
            S0 = list(S)
            got = est.complete_test(p, child, S0, n, len(ds['labels']), idx[p], d)
            s1 = tuple(sorted(idx[x] for x in S))
            s2 = tuple(sorted([idx[x] for x in S] + [idx[p]]))
            cf1, T1, M1 = st(s1)
            cf2, T2, M2 = st(s2)
            keep = [k for k, v in enumerate(s2) if v != idx[p]]
            want = []
            for c1 in cf1:
                for c2 in cf2:
                    if tuple(c2[k] for k in keep) == c1:
                        want.append((key_of(T1[c1], M1[c1]), key_of(T2[c2], M2[c2])))
            exp = all(unit(case['salt'], a, b) < case['prob'] for a, b in want)
            seen = [(a, b) for a, b, *_ in est.log]
            if bool(got) != exp:
                return ['test of %s given %s answers %s, not %s' % (p, S, got, exp)]
            if exp and sorted(set(seen)) != sorted(set(want)):
                return ['test of %s given %s compared %d pairs, not the %d matching ones' % (p, S, len(set(seen)), len(set(want)))]
            if not set(seen) <= set(want):
                return ['test of %s given %s compared a pair that does not match' % (p, S)]
            df = 0.0
            if n > 2:
                df = float((n - 1) ** 2 * ds['cards'][idx[p]])
                for x in S:
                    df *= ds['cards'][idx[x]]
            for _, _, cn, th, pi, ci in est.log:
                if cn != n or pi != idx[p] or ci != d or (n > 2 and th != df):
                    return ['pairwise test called with %s' % ((cn, th, pi, ci),)]


class StubComplete(StructureConstraintBasedEstimator):
    prob, salt, lock = .5, 0, 0.0

    def complete_test(self, test_parent, test_child, parent_set, child_states_numb, tot_vars_count, parent_indx, child_indx):
        r = unit(self.salt, str(test_parent), str(test_child), tuple(sorted(map(str, parent_set)))) < self.prob
        if not r and unit(self.salt, 'lock', str(test_parent), len(parent_set)) < self.lock:
            self._removable_edges_matrix[parent_indx][child_indx] = False
        self.log.append((str(test_parent), str(test_child), tuple(map(str, parent_set)), r, child_states_numb, int(parent_indx), int(child_indx)))
        return r


def known(rng, ls, p=.2):
    return [(a, b) for a in ls for b in ls if a != b and rng.random() < p]


class C12(Base):
    """A case is 1-6 variables, known edges and a random answer for every conditional test; the log of the tests is compared with the rules of the search."""

    @staticmethod
    def gen(rng, i):
        ds = tiny(rng, n=rng.randint(1, 6))
        return dict(ds=ds, known=known(rng, ds['labels'], rng.choice([0, .2, .5])), prob=rng.choice([0, .05, .2, .5, 1]), salt=rng.randrange(10 ** 6), lock=rng.choice([0, 0, .3]), child=rng.choice(ds['labels']))

    @staticmethod
    def run(case):
        ds, child = case['ds'], case['child']
        ls = ds['labels']
        est = StubComplete(sample_path(ds), .1, .1, [tuple(e) for e in case['known']], 25)
        est.prob, est.salt, est.lock, est.log = case['prob'], case['salt'], case['lock'], []
        est._sample_path.structure.clean_structure_edges()
        res = [tuple(map(str, e)) for e in est.one_iteration_of_CTPC_algorithm(child, len(ls))]
        if len(set(res)) != len(res) or any(e[1] != child or e[0] == child or e[0] not in ls for e in res):
            return ['edges %s for %s' % (res, child)]
        left = {e[0] for e in res}
        present = set(ls) - {child}
        kn = {e[0] for e in case['known'] if e[1] == child}
        for p, c, S, r, cn, pi, ci in est.log:
            if c != child or p not in present or p in kn or not set(S) <= present - {p} or len(set(S)) != len(S):
                return ['test of %s given %s while the candidates are %s' % (p, S, sorted(present))]
            if (cn, pi, ci) != (ds['cards'][ls.index(child)], ls.index(p), ls.index(child)):
                return ['test of %s called with %s' % (p, (cn, pi, ci))]
            if r:
                present.discard(p)
        if present != left:
            return ['the tests leave %s, the search returns %s' % (sorted(present), sorted(left))]
        neg = {(p, frozenset(S)) for p, c, S, r, *_ in est.log if not r}
        for p in left:
            if not est._removable_edges_matrix[ls.index(p)][ls.index(child)]:
                continue
            rest = sorted(left - {p})
            for b in range(len(rest) + 1):
                for S in itertools.combinations(rest, b):
                    if (p, frozenset(S)) not in neg:
                        return ['%s was kept but never tested given %s' % (p, S)]


# ---------------------------------------------------------------- score based
class StubScore(StructureScoreBasedEstimator):
    salt, mode = 0, 'random'

    def get_score_from_graph(self, graph, node_id):
        graph.fast_init(node_id)
        ps = tuple(sorted(map(str, graph.get_parents_by_id(node_id))))
        s = score_of(self.salt, self.mode, str(node_id), ps)
        self.log.append((set(ps), s))
        return s


def score_of(salt, mode, node, ps):
    if mode == 'random':
        return unit(salt, node, ps) * 100 - 50
    if mode == 'flat':
        return -5.0
    if mode == 'more':
        return float(len(ps)) + unit(salt, node, ps) * .5
    if mode == 'fewer':
        return -float(len(ps)) - unit(salt, node, ps) * .5
    if mode == 'additive':
        return sum((unit(salt, node, p) - .4) for p in ps)
    if mode == 'ties':
        return float(int(unit(salt, node, ps) * 3))


def search_case(rng, i):
    ds = tiny(rng, n=rng.randint(1, 7))
    ls = ds['labels']
    return dict(ds=ds, node=rng.choice(ls), known=known(rng, ls, rng.choice([0, 0, .15, .3, .6])), salt=rng.randrange(10 ** 6), mode=rng.choice(['random', 'random', 'flat', 'more', 'fewer', 'additive', 'ties']),
                maxp=rng.choice([None, None, 0, 1, 1, 2, 3]), it=rng.choice([0, 1, 3, 10, 40, 80]), pat=rng.choice([None, None, 0, 1, 3, 10]),
                tl=rng.choice([None, None, 1, 2, 3, 10]), td=rng.choice([None, 1, 2, 3, 5, 10]))


def search(case, optimizer):
    ds, node = case['ds'], case['node']
    ls = ds['labels']
    est = StubScore(sample_path(ds), 0.1, 1, [tuple(e) for e in case['known']])
    est.salt, est.mode, est.log = case['salt'], case['mode'], []
    est._sample_path.structure.clean_structure_edges()
    kw = dict(node_id=node, max_parents=case['maxp'], iterations_number=case['it'], patience=case['pat'], optimizer=optimizer)
    if optimizer == 'tabu':
        kw.update(tabu_length=case['tl'], tabu_rules_duration=case['td'])
    res = [tuple(map(str, e)) for e in est.estimate_parents(**kw)]
    out = []
    prior = {a for a, b in case['known'] if b == node}
    if len(set(res)) != len(res) or any(e[1] != node or e[0] == node or e[0] not in ls for e in res):
        return ['edges %s for %s' % (res, node)], est, prior
    got = {e[0] for e in res}
    sc = lambda ps: score_of(case['salt'], case['mode'], node, tuple(sorted(ps)))
    if sc(got) < sc(prior):
        out.append('score of the result %s is %s, the prior parents %s score %s' % (sorted(got), sc(got), sorted(prior), sc(prior)))
    if not prior <= got:
        out.append('prior parents %s missing from %s' % (sorted(prior), sorted(got)))
    m = case['maxp']
    if m is not None and len(prior) <= m and len(got) > m:
        out.append('%d parents, limit %d' % (len(got), m))
    log = est.log
    cand = set(ls) - {node} - prior
    if m is not None and len(prior) >= m:
        cand = set()
    if log and log[0][0] != prior:
        out.append('the search does not start from the prior parents: %s' % sorted(log[0][0]))
    its = len(log) - 1
    if its > case['it']:
        out.append('%d iterations, limit %d' % (its, case['it']))
    best, streak, cur = log[0][1] if log else None, 0, set(prior)
    props = []
    for k, (ps, s) in enumerate(log[1:]):
        if case['pat'] is not None and streak > case['pat']:
            out.append('iteration %d after %d non-improving ones, patience %d' % (k + 1, streak, case['pat']))
            break
        if m is not None and len(prior) <= m and len(ps) > m:
            out.append('%d parents proposed, limit %d' % (len(ps), m))
        new = sorted(ps - cur) if len(ps) >= len(cur) else sorted(cur - ps)
        props.append(new[0] if len(new) == 1 else None)
        if s > best:
            best, streak, cur = s, 0, ps
        else:
            streak += 1
    if cand and its < case['it'] and not (case['pat'] is not None and streak > case['pat']) and not out:
        out.append('the search stopped after %d of %d iterations, %d non-improving, patience %s' % (its, case['it'], streak, case['pat']))
    if not out and cur != got:
        out.append('the best parents seen in turn are %s, the result is %s' % (sorted(cur), sorted(got)))
    case['_props'] = (props, cand)
    return out, est, prior


class C13(Base):
    """A case is 1-7 variables, known edges, limits (including 0 and none) and a random score of every parent set (six shapes, ties included); the sequence of parent sets scored by hill climbing is compared with the rules."""
    gen = staticmethod(search_case)

    @staticmethod
    def run(case):
        return search(dict(case), 'hill')[0]


class C14(Base):
    """As C13 for tabu search with tabu lengths and durations 1-10 or default; the tabu list is replayed from the proposals."""
    gen = staticmethod(search_case)

    @staticmethod
    def run(case):
        case = dict(case)
        out, est, prior = search(case, 'tabu')
        props, cand = case.get('_props', ([], set()))
        if out or not cand:
            return out
        L = case['tl'] if case['tl'] is not None else len(cand)
        D = case['td'] if case['td'] is not None else len(cand)
        q, cnt = [], 0
        for k, p in enumerate(props):
            if p is None:
                return ['iteration %d changes more than one candidate' % (k + 1)]
            if p not in cand:
                return ['%s proposed, not a candidate' % p]
            free = cand - set(q)
            if free and p in q:
                return ['%s proposed at iteration %d while on the tabu list %s and %s available' % (p, k + 1, q, sorted(free))]
            if p in q:
                q.remove(p)
            if len(q) >= L:
                q.pop(0)
            q.append(p)
            cnt += 1
            if cnt % D == 0:
                cnt = 0
                if q:
                    q.pop(0)
        return out


class C15(Base):
    """A case is a data set, known edges (possibly more than the limits allow) and one of three algorithms with stubbed answers that reward removing or adding edges."""

    @staticmethod
    def gen(rng, i):
        c = search_case(rng, i)
        c['ds'] = tiny(rng, n=rng.randint(2, 5))
        c['known'] = known(rng, c['ds']['labels'], rng.choice([0, .2, .5]))
        c['algo'] = rng.choice(['ctpc', 'hill', 'tabu'])
        c['prob'] = rng.choice([1, 1, .5])
        c['how'] = rng.choice(['list', 'none', 'tuple'])
        return c

    @staticmethod
    def run(case):
        ds = case['ds']
        kn = [tuple(e) for e in case['known']]
        k = kn
        if not kn and case['how'] == 'none':
            k = None
        elif case['how'] == 'tuple':
            k = tuple(kn)
        if case['algo'] == 'ctpc':
            est = StubComplete(sample_path(ds), .1, .1, k, 25)
            est.prob, est.salt, est.log, est.lock = case['prob'], case['salt'], [], 0
            res = est.estimate_structure(disable_multiprocessing=True)
            only = case['prob'] == 1
        else:
            est = StubScore(sample_path(ds), 0.1, 1, k)
            est.salt, est.mode, est.log = case['salt'], case['mode'], []
            res = est.estimate_structure(max_parents=case['maxp'], iterations_number=case['it'], patience=case['pat'], tabu_length=case['tl'], tabu_rules_duration=case['td'], optimizer=case['algo'], disable_multiprocessing=True)
            only = case['mode'] in ('fewer', 'flat')
        res = {tuple(map(str, e)) for e in res}
        g = {tuple(map(str, e)) for e in zip(*[[ds['labels'][k] for k in ix] for ix in np.nonzero(est.adjacency_matrix())])}
        miss = [e for e in kn if e not in res or e not in g]
        if miss:
            return ['known edges %s missing from %s' % (miss, sorted(res))]
        if only and res - set(kn):
            return ['edges %s kept as if they were known' % sorted(res - set(kn))]


class PartScore(StructureScoreBasedEstimator):
    salt = 0

    def estimate_parents(self, node_id, max_parents=None, iterations_number=40, patience=10, tabu_length=None, tabu_rules_duration=5, optimizer='hill'):
        return part(self.salt, [str(x) for x in self._nodes], str(node_id), (max_parents, iterations_number, patience, tabu_length, tabu_rules_duration, optimizer))


class PartConstraint(StructureConstraintBasedEstimator):
    salt = 0

    def one_iteration_of_CTPC_algorithm(self, var_id, tot_vars_count):
        return part(self.salt, [str(x) for x in self._nodes], str(var_id), (int(tot_vars_count),))


def part(salt, ls, node, limits):
    return [(l, node) for l in ls if l != node and unit(salt, l, node, limits) < .4]


class C16(Base):
    """A case is a data set, a prior structure or none, limits, an algorithm and the number of processes; the per-node search is replaced by a function of the node and its limits, and the assembled result is compared with the union."""

    @staticmethod
    def gen(rng, i):
        c = search_case(rng, i)
        c['ds'] = tiny(rng, n=rng.randint(1, 6))
        c['prior'] = None if rng.random() < .3 else random_edges(rng, c['ds']['labels'], .4)
        c['algo'] = rng.choice(['ctpc', 'score', 'score'])
        c['opt'] = rng.choice(['hill', 'tabu'])
        c['procs'] = rng.choice([1, 2, 3, None]) if i % 6 == 5 else 0
        c['empty'] = rng.random() < .15
        return c

    @staticmethod
    def run(case):
        ds = case['ds']
        ls = ds['labels']
        sp = sample_path(ds, [tuple(e) for e in case['prior']] if case['prior'] is not None else None)
        keep = (np.array(sp.trajectories.complete_trajectory), np.array(sp.trajectories.times), [tuple(e) for e in sp.structure.edges], list(sp.structure.nodes_labels), np.array(sp.structure.nodes_values), np.array(sp.structure.nodes_indexes))
        par = dict(disable_multiprocessing=True) if case['procs'] == 0 else dict(disable_multiprocessing=False, processes_number=case['procs'])
        salt = case['salt'] if not case['empty'] else None
        if case['algo'] == 'ctpc':
            est = PartConstraint(sp, .1, .1, [], 25)
            lim = (len(ls),)
            call = lambda: est.estimate_structure(**par)
        else:
            est = PartScore(sp, .1, 1, [])
            lim = (case['maxp'], case['it'], case['pat'], case['tl'], case['td'], case['opt'])
            call = lambda: est.estimate_structure(max_parents=case['maxp'], iterations_number=case['it'], patience=case['pat'], tabu_length=case['tl'], tabu_rules_duration=case['td'], optimizer=case['opt'], **par)
        est.salt = case['salt']
        global part
        old = part
        if case['empty']:
            part = lambda *a: []
        try:
            want = {e for l in ls for e in part(case['salt'], ls, l, lim)}
            res = call()
        finally:
            part = old
        out = []
        if {tuple(map(str, e)) for e in res} != want or len(list(res)) != len(want):
            out.append('returned %s, the union is %s' % (sorted(map(tuple, res)), sorted(want)))
        A = np.asarray(est.adjacency_matrix())
        B = np.array([[(a, b) in want for b in ls] for a in ls])
        if A.shape != B.shape or not np.array_equal(A.astype(bool), B):
            out.append('adjacency matrix %s, not %s' % (A.astype(int).tolist(), B.astype(int).tolist()))
        d = tempfile.mkdtemp()
        try:
            est.save_results(os.path.join(d, 'r.json'))
            js = json.load(open(os.path.join(d, 'r.json')))
        finally:
            shutil.rmtree(d)
        if sorted(x['id'] for x in js['nodes']) != sorted(ls) or {(x['source'], x['target']) for x in js['links']} != want:
            out.append('saved graph %s' % js)
        st = sp.structure
        now = (np.array(sp.trajectories.complete_trajectory), np.array(sp.trajectories.times), [tuple(e) for e in st.edges], list(st.nodes_labels), np.array(st.nodes_values), np.array(st.nodes_indexes))
        for nm, a, b in zip(('states', 'times', 'prior edges', 'labels', 'cardinalities', 'indexes'), keep, now):
            if not (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b):
                out.append('%s changed from %s to %s' % (nm, str(a)[:200], str(b)[:200]))
        return out


class C17(Base):
    """As C16, the spurious edges compared with the estimated edges that are not prior, after one or two estimations."""

    @staticmethod
    def gen(rng, i):
        c = C16.gen(rng, 0)
        c['twice'] = rng.random() < .3
        c['empty'] = False
        return c

    @staticmethod
    def run(case):
        ds = case['ds']
        pr = [tuple(e) for e in case['prior']] if case['prior'] is not None else None
        sp = sample_path(ds, pr)
        if case['algo'] == 'ctpc':
            est = PartConstraint(sp, .1, .1, [], 25)
            call = lambda: est.estimate_structure(disable_multiprocessing=True)
        else:
            est = PartScore(sp, .1, 1, [])
            call = lambda: est.estimate_structure(max_parents=case['maxp'], iterations_number=case['it'], patience=case['pat'], optimizer=case['opt'], disable_multiprocessing=True)
        est.salt = case['salt']
        res = call()
        if case['twice']:
            est.spurious_edges()
            est.salt += 1
            res = call()
        got = [tuple(map(str, e)) for e in est.spurious_edges()]
        want = sorted(set(tuple(map(str, e)) for e in res) - set(pr)) if pr else []
        if sorted(got) != want:
            return ['spurious %s, not %s (prior %s, estimated %s)' % (sorted(got), want, pr, sorted(res))]


class C18(Base):
    """A case is a data set, hyperparameters and a sequence of parent additions and removals for one or several nodes of one network; after each step the score is compared with the closed form on brute-force
    counts. Labels may be concatenations of one another; all subsets of the possible parents of a node may be visited."""

    @staticmethod
    def gen(rng, i):
        ds = dataset(rng, n=rng.randint(2, 5), big=.05)
        if rng.random() < .4:
            pool = rng.choice([['x', 'y', 'xy', 'yx', 'xyx', 'n'], ['A', 'AA', 'AAA', 'B', 'AB'], ['1', '2', '12', '21', '11'], ['a', 'a b', 'b', 'b a', 'a,b']])
            ds['labels'] = rng.sample(pool, len(ds['labels']))
        ls = ds['labels']
        nodes = [rng.choice(ls)] if rng.random() < .6 else ls
        if rng.random() < .3:
            node = nodes[0]
            subsets = [c for k in range(4) for c in itertools.combinations([l for l in ls if l != node], k)]
            rng.shuffle(subsets)
            steps, cur = [], set()
            for sub in subsets:
                steps += [(node, l, False) for l in sorted(cur ^ set(sub), key=lambda l: (l in sub, l))]
                if steps:
                    steps[-1] = steps[-1][:2] + (True,)
                cur = set(sub)
        else:
            steps = []
            for _ in range(rng.randint(1, 8)):
                node = rng.choice(nodes)
                steps.append((node, rng.choice([l for l in ls if l != node]), True))
        return dict(ds=ds, nodes=nodes, steps=steps, tau=rng.choice([.1, 1, 2.5]), alpha=rng.choice([1, .5, 3]), prior=rng.random() < .5)

    @staticmethod
    def run(case):
        ds = case['ds']
        idx = {l: i for i, l in enumerate(ds['labels'])}
        sp = sample_path(ds)
        est = StructureScoreBasedEstimator(sp, tau_xu=case['tau'], alpha_xu=case['alpha'])
        g = NetworkGraph(sp.structure)
        par = {l: set() for l in ds['labels']}
        before = np.array(sp.trajectories.complete_trajectory), np.array(sp.trajectories.times)
        if case['prior']:
            g.add_edges([])
            est.get_score_from_graph(g, case['nodes'][0])
        for node, p, ask in case['steps']:
            cur = par[node]
            if p in cur:
                g.remove_edges([(p, node)])
                cur.discard(p)
            else:
                if len(cur) >= 3:
                    continue
                g.add_edges([(p, node)])
                cur.add(p)
            if not ask:
                continue
            got = est.get_score_from_graph(g, node)
            cf, T, M = stats(ds, idx[node], sorted(idx[q] for q in cur))
            exp = fam_score([T[c] for c in cf], [M[c] for c in cf], case['tau'], case['alpha'])
            if not close(got, exp, 1e-8, 1e-7):
                return ['score of %s with parents %s is %s, not %s' % (node, sorted(cur), got, exp)]
            again = est.get_score_from_graph(g, node)
            if not close(got, again, 1e-10, 1e-9):
                return ['the second score is %s, the first %s' % (again, got)]
        if not (np.array_equal(before[0], sp.trajectories.complete_trajectory) and np.array_equal(before[1], sp.trajectories.times)):
            return ['the data set was modified']


# ---------------------------------------------------------------- structures
def structure_case(rng, i):
    V = rng.randint(1, 8)
    n = rng.randint(1, V)
    ls = labels(rng, n)
    ix = sorted(rng.sample(range(V), n))
    if rng.random() < .2:
        rng.shuffle(ix)
    cs = [rng.choice([1, 2, 3, 4, 11]) for _ in range(n)]
    return dict(labels=ls, idx=ix, cards=cs, V=V, edges=random_edges(rng, ls, rng.choice([.2, .5, .9]), 4))


class C19(Base):
    """A case is a structure whose column indexes need not be positions, and a sequence of removals and edge changes on it or on a network over it, replayed against a reference list."""

    @staticmethod
    def gen(rng, i):
        c = structure_case(rng, i)
        left = list(c['labels'])
        ops = []
        for _ in range(rng.randint(1, 8)):
            k = rng.choice(['remove', 'remove', 'add', 'del', 'clear' if rng.random() < .2 else 'remove'])
            if k == 'remove':
                if not left:
                    continue
                v = rng.choice(left)
                left.remove(v)
                ops.append([k, v])
            elif len(left) >= 2:
                a, b = rng.sample(left, 2)
                ops.append([k, [a, b]])
        c['ops'] = ops
        c['net'] = rng.random() < .5
        return c

    @staticmethod
    def run(case):
        ls, ix, cs = list(case['labels']), list(case['idx']), list(case['cards'])
        es = [tuple(e) for e in case['edges']]
        st = Structure(list(ls), np.array(ix), np.array(cs), list(es), case['V'])
        g = None
        if case['net']:
            g = NetworkGraph(st)
            g.add_nodes(st.nodes_labels)
            g.add_edges(st.edges)
        ges = set(es)
        for op, a in [('none', None)] + [tuple(o) for o in case['ops']]:
            if op == 'remove':
                k = ls.index(a)
                (g if g is not None else st).remove_node(a)
                del ls[k], ix[k], cs[k]
                es = [e for e in es if a not in e]
                ges = {e for e in ges if a not in e}
            elif op == 'add':
                e = tuple(a)
                if g is not None:
                    g.add_edges([e])
                    ges.add(e)
                elif e not in es:
                    st.add_edge(e)
                    es.append(e)
            elif op == 'del':
                e = tuple(a)
                if g is not None:
                    g.remove_edges([e])
                    ges.discard(e)
                elif e in es:
                    st.remove_edge(e)
                    es.remove(e)
            elif op == 'clear':
                if g is None:
                    st.clean_structure_edges()
                    es = []
            w = 'after %s %s: ' % (op, a)
            if list(st.nodes_labels) != ls or [int(v) for v in st.nodes_indexes] != ix or [int(v) for v in st.nodes_values] != cs:
                return [w + 'labels %s indexes %s cardinalities %s, not %s %s %s' % (st.nodes_labels, list(st.nodes_indexes), list(st.nodes_values), ls, ix, cs)]
            if [tuple(e) for e in st.edges] != es:
                return [w + 'edges %s, not %s' % (st.edges, es)]
            if st.total_variables_number != case['V']:
                return [w + '%s columns' % st.total_variables_number]
            for k, l in enumerate(ls):
                if st.get_node_id(k) != l or int(st.get_node_indx(l)) != ix[k] or int(st.get_states_number(l)) != cs[k] or st.get_positional_node_indx(l) != k:
                    return [w + 'look-ups of %s disagree' % l]
            for e in itertools.permutations(ls, 2):
                if st.contains_edge(e) != (e in es):
                    return [w + 'contains_edge%s is %s' % (e, st.contains_edge(e))]
            if g is not None:
                if list(g.nodes) != ls or {tuple(e) for e in g.edges} != ges or len(g.edges) != len(ges):
                    return [w + 'network nodes %s edges %s, not %s %s' % (g.nodes, g.edges, ls, sorted(ges))]
                for k, l in enumerate(ls):
                    if int(g.get_node_indx(l)) != ix[k] or int(g.get_states_number(l)) != cs[k] or g.get_positional_node_indx(l) != k:
                        return [w + 'network look-ups of %s disagree' % l]
                    if sorted(g.get_parents_by_id(l)) != sorted(a for a, b in ges if b == l):
                        return [w + 'network parents of %s are %s' % (l, g.get_parents_by_id(l))]


class C20(Base):
    """A case is a structure whose column indexes need not be positions and a network over it whose edges are added in a random order and partly changed; parents, filters and strides of every node are compared with the definition."""

    @staticmethod
    def gen(rng, i):
        c = structure_case(rng, i)
        c['extra'] = random_edges(rng, c['labels'], .3)
        c['drop'] = [e for e in c['edges'] if rng.random() < .2]
        return c

    @staticmethod
    def run(case):
        ls, ix, cs, V = case['labels'], case['idx'], case['cards'], case['V']
        es = [tuple(e) for e in case['edges']]
        st = Structure(list(ls), np.array(ix), np.array(cs), list(es), V)
        pos = {l: k for k, l in enumerate(ls)}
        for k, l in enumerate(ls):
            g = NetworkGraph(st)
            g.fast_init(l)
            m = C20.one(g, l, set(es), pos, ix, cs, V)
            if m:
                return m
        g = NetworkGraph(st)
        g.add_nodes(st.nodes_labels)
        g.add_edges(st.edges)
        g.add_edges([tuple(e) for e in case['extra']])
        g.remove_edges([tuple(e) for e in case['drop']])
        now = (set(es) | {tuple(e) for e in case['extra']}) - {tuple(e) for e in case['drop']}
        if {tuple(e) for e in g.edges} != now:
            return ['edges %s, not %s' % (g.edges, sorted(now))]
        for l in ls:
            m = C20.info(g, l, now, pos, ix, cs)
            if m:
                return m
            for q in ls:
                if bool(g.has_edge((q, l))) != ((q, l) in now):
                    return ['has_edge%s' % ((q, l),)]

    @staticmethod
    def info(g, l, es, pos, ix, cs):
        ps = sorted([a for a, b in es if b == l], key=lambda v: pos[v])
        r = g.get_ordered_by_indx_set_of_parents(l)
        if [list(map(str, r[0])), [int(v) for v in r[1]], [int(v) for v in r[2]]] != [ps, [ix[pos[p]] for p in ps], [cs[pos[p]] for p in ps]]:
            return ['parents of %s are reported as %s, not %s' % (l, r, ps)]

    @staticmethod
    def one(g, l, es, pos, ix, cs, V):
        m = C20.info(g, l, es, pos, ix, cs)
        if m:
            return m
        ps = sorted([a for a, b in es if b == l], key=lambda v: pos[v])
        pi, pv = [ix[pos[p]] for p in ps], [cs[pos[p]] for p in ps]
        i, c = ix[pos[l]], cs[pos[l]]
        exp = dict(time_filtering=[i] + pi, transition_filtering=[i + V, i] + pi, time_scalar_indexing_strucure=list(np.cumprod([c] + pv)), transition_scalar_indexing_structure=list(np.cumprod([c, c] + pv)), p_combs=[list(t) for t in configs(pv)])
        for k, v in exp.items():
            got = np.asarray(getattr(g, k)).tolist()
            if got != [int(z) if not isinstance(z, list) else z for z in v]:
                return ['%s of %s is %s, not %s' % (k, l, got, v)]


class C21(Base):
    """A case is 1-6 variables and a density, fixed or not, once, or many times with the edge frequencies compared with the probability (6 standard deviations)."""

    @staticmethod
    def gen(rng, i):
        if i % 10 == 9:
            n = 3
            return dict(kind='stat', labels=labels(rng, n), cards=cards(rng, n), density=rng.choice([.2, .5, .7]), reps=1500)
        n = rng.randint(1, 6)
        fixed = rng.random() < .5
        t = n * (n - 1)
        d = rng.choice([0.0, 1.0, rng.random()])
        if fixed and t and rng.random() < .7:
            d = rng.choice([k / t for k in range(t + 1) if float(k / t * n * (n - 1)).is_integer()] or [0.0])
        return dict(kind='one', labels=labels(rng, n), cards=cards(rng, n), density=d, fixed=fixed)

    @staticmethod
    def run(case):
        ls = case['labels']
        n = len(ls)
        if case['kind'] == 'stat':
            cnt, joint, N, p = {}, {}, case['reps'], case['density']
            for _ in range(N):
                g = NetworkGenerator(list(ls), list(case['cards']))
                g.generate_graph(p, False)
                es = sorted(tuple(map(str, e)) for e in g.graph.edges)
                for e in es:
                    cnt[e] = cnt.get(e, 0) + 1
                for a, b in itertools.combinations(es, 2):
                    joint[(a, b)] = joint.get((a, b), 0) + 1
            al = sorted(itertools.permutations(ls, 2))
            for e in al:
                if abs(cnt.get(e, 0) - N * p) > 6.5 * math.sqrt(N * p * (1 - p)):
                    return ['edge %s drawn %d of %d times with probability %s' % (e, cnt.get(e, 0), N, p)]
            for a, b in itertools.combinations(al, 2):
                q = p * p
                if abs(joint.get((a, b), 0) - N * q) > 6.5 * math.sqrt(N * q * (1 - q)):
                    return ['edges %s and %s drawn together %d of %d times: the draws are not independent' % (a, b, joint.get((a, b), 0), N)]
            return
        g = NetworkGenerator(list(ls), list(case['cards']))
        want = case['density'] * n * (n - 1)
        try:
            g.generate_graph(case['density'], case['fixed'])
        except RuntimeError:
            if case['fixed'] and not float(want).is_integer():
                return
            raise
        if case['fixed'] and not float(want).is_integer():
            return ['density %s of %d variables was accepted' % (case['density'], n)]
        G = g.graph
        es = [tuple(map(str, e)) for e in G.edges]
        out = []
        if list(G.nodes) != ls:
            out.append('nodes %s' % G.nodes)
        for l, c in zip(ls, case['cards']):
            if int(G.get_states_number(l)) != c:
                out.append('%s has %s states, not %s' % (l, G.get_states_number(l), c))
        if [int(v) for v in G.nodes_values] != case['cards'] or [int(v) for v in G.nodes_indexes] != list(range(n)):
            out.append('cardinalities %s, indexes %s' % (list(G.nodes_values), list(G.nodes_indexes)))
        if len(set(es)) != len(es) or any(a == b or a not in ls or b not in ls for a, b in es):
            out.append('edges %s' % es)
        if case['fixed'] and len(es) != int(want):
            out.append('%d edges, density %s asks for %s' % (len(es), case['density'], want))
        if not case['fixed'] and case['density'] in (0.0, 1.0) and len(es) != int(want):
            out.append('%d edges with probability %s' % (len(es), case['density']))
        df = g.dyn_str
        if sorted((str(a), str(b)) for a, b in zip(df['From'], df['To'])) != sorted(es):
            out.append('dyn_str is not the edges of the graph')
        v = g.variables
        if list(v.iloc[:, 0]) != ls or [int(c) for c in v.iloc[:, 1]] != case['cards']:
            out.append('variables frame %s' % v.values.tolist())
        return out


class C22(Base):
    """A case is 1-5 variables with 2-11 states, a density and a range of intensities; every generated matrix is checked entry by entry."""

    @staticmethod
    def gen(rng, i):
        n = rng.randint(1, 5)
        lo = rng.choice([0.5, 1, 3, .01])
        return dict(labels=labels(rng, n), cards=cards(rng, n, 2, 4, .15), density=rng.choice([0., .3, .6]), lo=lo, hi=lo * rng.choice([1, 1.5, 4]), twice=rng.random() < .2,
                    edges=rng.randint(0, n * (n - 1)) if rng.random() < .5 else None)

    @staticmethod
    def run(case):
        ls, cs = case['labels'], case['cards']
        g = NetworkGenerator(list(ls), list(cs))
        fixed = case.get('edges') is not None and len(ls) > 1
        for _ in range(20):
            try:
                g.generate_graph(case['edges'] / (len(ls) * (len(ls) - 1)) if fixed else case['density'], fixed)
            except RuntimeError:
                return
            pa = {l: [k for k in range(len(ls)) if (ls[k], l) in {tuple(map(str, e)) for e in g.graph.edges}] for l in ls}
            if all(np.prod([cs[k] for k in pa[l]] or [1]) <= 150 for l in ls):
                break
        else:
            return
        g.generate_cims(case['lo'], case['hi'])
        if case['twice']:
            g.generate_cims(case['lo'], case['hi'])
        if sorted(g.cims) != sorted(ls):
            return ['matrices for %s' % sorted(g.cims)]
        for l, n in zip(ls, cs):
            s = g.cims[l]
            cf = configs([cs[k] for k in pa[l]])
            if [tuple(r) for r in np.asarray(s.p_combs).tolist()] != cf:
                return ['%s: configurations %s, not %s' % (l, np.asarray(s.p_combs).tolist()[:10], cf[:10])]
            if len(s.actual_cims) != len(cf):
                return ['%s: %d matrices for %d configurations' % (l, len(s.actual_cims), len(cf))]
            if len({id(o) for o in s.actual_cims}) != len(cf):
                return ['%s: configurations share a matrix' % l]
            for o in s.actual_cims:
                m = np.asarray(o.cim, dtype=float)
                if m.shape != (n, n) or not np.isfinite(m).all():
                    return ['%s: matrix %s' % (l, m.tolist())]
                for x in range(n):
                    if not (-case['hi'] - 6e-5 <= m[x, x] <= -case['lo'] + 6e-5):
                        return ['%s: diagonal entry %s outside [-%s, -%s]' % (l, m[x, x], case['hi'], case['lo'])]
                    if any(m[x, y] < 0 for y in range(n) if y != x):
                        return ['%s: negative entry in row %s' % (l, m[x].tolist())]
                    if abs(m[x].sum()) > n * 5.01e-5 + 1e-9:
                        return ['%s: row %s sums to %s' % (l, m[x].tolist(), m[x].sum())]
        if len(ls) >= 1 and case['hi'] > case['lo'] * 1.2:
            ds = [float(o.cim[x][x]) for l in ls for o in g.cims[l].actual_cims for x in range(len(o.cim))]
            if len(ds) >= 4 and len(set(ds)) == 1:
                return ['every diagonal entry is %s' % ds[0]]


# ---------------------------------------------------------------- sampling
def random_cim(rng, n, scale=1.0, zeros=.15):
    m = []
    for x in range(n):
        r = [0.0 if y != x and rng.random() < zeros else round(rng.random() * scale + .05, 6) for y in range(n)]
        r[x] = 0.0
        if sum(r) == 0:
            r[(x + 1) % n] = round(rng.random() * scale + .05, 6)
        r[x] = -sum(r)
        m.append(r)
    return m


def net_case(rng, i, maxn=4, scale=1.0, big=.1):
    n = rng.randint(1, maxn)
    ls = labels(rng, n)
    cs = cards(rng, n, 2, 3, big)
    par = {}
    for v in ls:
        ps = [u for u in ls if u != v and rng.random() < .55]
        tot = 1
        keep = []
        for p in ps:
            if tot * cs[ls.index(p)] <= 60:
                tot *= cs[ls.index(p)]
                keep.append(p)
        par[v] = keep
    groups = {v: [(p, v) for p in par[v]] for v in ls}
    order = [v for v in ls for _ in par[v]]
    rng.shuffle(order)
    edges = [groups[v].pop(0) for v in order]
    cims = {v: [random_cim(rng, cs[ls.index(v)], scale) for _ in configs([cs[ls.index(p)] for p in par[v]])] for v in ls}
    return dict(labels=ls, cards=cs, parents=par, edges=edges, cims=cims)


def net_parts(net):
    ls, cs = net['labels'], net['cards']
    var = pd.DataFrame(list(zip(ls, cs)), columns=['Name', 'Value'])
    dyn = pd.DataFrame([tuple(e) for e in net['edges']], columns=['From', 'To'])
    cims = {}
    for v in ls:
        pc = [cs[ls.index(p)] for p in net['parents'][v]]
        combs = np.array(configs(pc)) if pc else np.array([[]], dtype=int)
        cims[v] = SetOfCims(node_id=v, parents_states_number=pc, node_states_number=cs[ls.index(v)], p_combs=combs, cims=np.array([ConditionalIntensityMatrix(cim=np.array(m)) for m in net['cims'][v]]))
    return var, dyn, cims


def q_of(net, v, state):
    """the intensity matrix of v under a state (label -> value)"""
    ls, cs = net['labels'], net['cards']
    k, w = 0, 1
    for p in net['parents'][v]:
        k += state[p] * w
        w *= cs[ls.index(p)]
    return net['cims'][v][k]


@contextlib.contextmanager
def recorder():
    log = []
    ox, om = np.random.exponential, np.random.multinomial

    def ex(scale=1.0, size=None):
        r = ox(scale, size)
        log.append(('exp', scale, r))
        return r

    def mu(n, pvals, size=None):
        pv = [float(z) for z in pvals]
        r = om(n, pvals, size)
        log.append(('mult', pv, np.asarray(r).tolist()))
        return r
    np.random.exponential, np.random.multinomial = ex, mu
    try:
        yield log
    finally:
        np.random.exponential, np.random.multinomial = ox, om


def well_formed(net, tr, t_end, max_tr):
    ls, cs = net['labels'], net['cards']
    if list(tr.columns) != ['Time'] + ls:
        return ['columns %s' % list(tr.columns)]
    rows = [[float(v) for v in r] for r in tr.to_numpy().tolist()]
    if rows[-1][1:] != [-1.0] * len(ls):
        return ['the last row is %s' % rows[-1]]
    if rows[0][0] != 0 or (len(rows) > 1 and rows[0][1:] != [0.0] * len(ls)):
        return ['the first row is %s' % rows[0]]
    for a, b in zip(rows, rows[1:-1]):
        ch = [k for k in range(1, len(a)) if a[k] != b[k]]
        if len(ch) != 1 or not (0 <= b[ch[0]] < cs[ch[0] - 1]) or b[ch[0]] != int(b[ch[0]]):
            return ['row %s follows %s' % (b, a)]
    for a, b in zip(rows, rows[1:]):
        if b[0] < a[0]:
            return ['time %s follows %s' % (b[0], a[0])]
    nj = len(rows) - 1
    if max_tr != -1 and (nj > max_tr or (t_end == -1 and nj != max_tr)):
        return ['%d jumps, %d requested' % (nj, max_tr)]
    if t_end != -1 and any(r[0] > t_end + 5.1e-5 for r in rows):
        return ['a jump at %s, end time %s' % (max(r[0] for r in rows), t_end)]
    return []


def follow(net, tr, log, t_end, max_tr):
    """replay the recorded draws: (C23 messages, C24 messages); needs one exponential per waiting time"""
    ls = net['labels']
    rows = [[float(v) for v in r] for r in tr.to_numpy().tolist()]
    state = {l: 0 for l in ls}
    times, t, pos = {}, 0.0, 0
    need = list(ls)
    rates = lambda v: -q_of(net, v, state)[state[v]][state[v]]
    n = 0
    while True:
        draws = []
        while pos < len(log) and log[pos][0] == 'exp':
            draws.append(log[pos])
            pos += 1
        exp = {v: rates(v) for v in need}
        if sorted(round(1 / float(d[1]), 9) for d in draws) != sorted(round(r, 9) for r in exp.values()):
            return ['after %d jumps the redrawn rates are %s, those of %s in %s are %s' % (n, sorted(1 / float(d[1]) for d in draws), need, state, exp)], []
        left = list(draws)
        for v in sorted(need, key=lambda v: ls.index(v)):
            d = next(d for d in left if abs(1 / float(d[1]) - exp[v]) < 1e-9 * max(1, exp[v]))
            left.remove(d)
            times[v] = t + float(d[2])
        jump = min(times, key=lambda v: times[v])
        t = times[jump]
        if pos >= len(log):
            # the trajectory stopped here
            out = []
            if max_tr != -1 and n == max_tr:
                pass
            elif t_end != -1 and t >= t_end:
                pass
            else:
                out.append('the trajectory stops after %d jumps with the next one at %s (end time %s, %s transitions requested)' % (n, t, t_end, max_tr))
            return [], out
        kind, pv, r = log[pos]
        pos += 1
        row = list(q_of(net, jump, state)[state[jump]])
        row[state[jump]] = 0.0
        s = sum(row)
        if len(pv) != len(row) or any(abs(a - b / s) > 1e-9 for a, b in zip(pv, row)):
            return ['after %d jumps %s jumps next with probabilities %s, the drawn ones are %s' % (n, jump, [b / s for b in row], pv)], []
        if t_end != -1 and t >= t_end:
            return [], ['a jump at %s, end time %s' % (t, t_end)]
        state = dict(state)
        flat = np.asarray(r).ravel().tolist()
        state[jump] = flat.index(1)
        n += 1
        if n < len(rows):
            last = n == len(rows) - 1
            if abs(rows[n][0] - t) > 5.1e-5:
                return ['jump %d at %s recorded at %s' % (n, t, rows[n][0])], []
            if not last and [state[l] for l in ls] != [int(x) for x in rows[n][1:]]:
                return ['jump %d of %s leads to %s, recorded %s' % (n, jump, state, rows[n])], []
        else:
            return [], ['%d jumps drawn, %d rows recorded' % (n, len(rows))]
        need = [v for v in ls if v == jump or jump in net['parents'][v]]


class C23(Base):
    """A case is a network of 1-4 variables with 2-12 states and distinct intensities, sampled for 5-40 jumps; every exponential and multinomial draw is recorded and compared with the intensities of the current states. One case in ten samples 700 jumps and compares waiting times and jumping variables with their distribution (6 standard deviations)."""

    @staticmethod
    def gen(rng, i):
        if i % 10 == 9:
            return dict(net=net_case(rng, i, 3, 1.0, 0), max_tr=700, kind='stat')
        return dict(net=net_case(rng, i), max_tr=rng.randint(5, 40), kind='draws')

    @staticmethod
    def run(case):
        net = case['net']
        var, dyn, cims = net_parts(net)
        g = TrajectoryGenerator(variables=var, dyn_str=dyn, dyn_cims=cims)
        keep = {v: [np.array(o.cim) for o in cims[v].actual_cims] for v in net['labels']}
        with recorder() as log:
            tr = g.CTBN_Sample(max_tr=case['max_tr'])
        for v in net['labels']:
            if any(not np.array_equal(a, o.cim) for a, o in zip(keep[v], cims[v].actual_cims)):
                return ['sampling changed the intensities of %s' % v]
        m = well_formed(net, tr, -1, case['max_tr'])
        if m:
            return m
        if case['kind'] == 'draws':
            if any(e[0] == 'exp' and np.ndim(e[2]) == 0 for e in log) and any(e[0] == 'mult' for e in log):
                return follow(net, tr, log, -1, case['max_tr'])[0]
            return
        rows = [[float(x) for x in r] for r in tr.to_numpy().tolist()][:-1]
        ls = net['labels']
        N, tot, dev, var_, nxt = 0, 0.0, {v: 0.0 for v in ls}, {v: 0.0 for v in ls}, 0
        for a, b in zip(rows, rows[1:]):
            st = {l: int(a[k + 1]) for k, l in enumerate(ls)}
            qs = {v: -q_of(net, v, st)[st[v]][st[v]] for v in ls}
            Q = sum(qs.values())
            tot += Q * (b[0] - a[0])
            N += 1
            j = next(k for k in range(len(ls)) if a[k + 1] != b[k + 1])
            if q_of(net, ls[j], st)[st[ls[j]]][int(b[j + 1])] <= 0:
                return ['a jump of %s to a state of intensity zero' % ls[j]]
            for v in ls:
                p = qs[v] / Q
                dev[v] += (1.0 if ls[j] == v else 0.0) - p
                var_[v] += p * (1 - p)
        if N and abs(tot - N) > 6.5 * math.sqrt(N) + N * 1e-3:
            return ['mean waiting time is %s times the expected one' % (tot / N)]
        for v in ls:
            if abs(dev[v]) > 6.5 * math.sqrt(var_[v]) + 1e-6:
                return ['%s jumps %s times more often than expected over %d jumps' % (v, dev[v], N)]


class C24(Base):
    """A case is a network of 1-4 variables sampled with a number of transitions, an end time, or both; the rows are checked and, when the draws were recorded, the point where the sampling stops."""

    @staticmethod
    def gen(rng, i):
        k = rng.choice(['tr', 'end', 'both', 'both'])
        return dict(net=net_case(rng, i, scale=rng.choice([1, 1, 5])), max_tr=rng.choice([1, 1, 2, 5, 20]) if k != 'end' else -1, t_end=rng.choice([.01, .3, 1, 2, 4, 10, 3.00004]) if k != 'tr' else -1, reuse=rng.random() < .3)

    @staticmethod
    def run(case):
        net = case['net']
        var, dyn, cims = net_parts(net)
        g = TrajectoryGenerator(variables=var, dyn_str=dyn, dyn_cims=cims)
        if case['reuse']:
            g.CTBN_Sample(max_tr=3)
        with recorder() as log:
            tr = g.CTBN_Sample(t_end=case['t_end'], max_tr=case['max_tr'])
        m = well_formed(net, tr, case['t_end'], case['max_tr'])
        if not m and any(e[0] == 'exp' and np.ndim(e[2]) == 0 for e in log):
            m = follow(net, tr, log, case['t_end'], case['max_tr'])[1]
        return m


class C25(Base):
    """A case is a network with 1-5 variables of 2-12 states, 0-4 parents each, and 1-3 trajectories, exported to a file in a scratch directory and read back; the matrices the generator would use are compared for every configuration, and a short sampling on the import is followed draw by draw."""

    @staticmethod
    def gen(rng, i):
        net = net_case(rng, i, maxn=5, big=.2)
        if not net['edges'] and rng.random() < .8:
            net = net_case(rng, i, maxn=5, big=.2)
        return dict(net=net, trs=[trajectories(rng, len(net['labels']), net['cards'], 1, rng.randint(2, 8))[0] for _ in range(rng.randint(1, 3))])

    @staticmethod
    def run(case):
        net = case['net']
        ls = net['labels']
        var, dyn, cims = net_parts(net)
        ds = dict(labels=ls, cards=net['cards'], time='Time', trs=case['trs'])
        d = tempfile.mkdtemp()
        old = os.getcwd()
        try:
            os.chdir(d)
            e = JsonExporter(variables=var, dyn_str=dyn, dyn_cims=cims)
            for f in frames(ds):
                e.add_trajectory(f)
            e.out_file('net.json')
            im = JsonImporter(os.path.join(d, 'net.json'), 'samples', 'dyn.str', 'variables', 'Time', 'Name', 'dyn.cims')
            im.import_data(0)
        finally:
            os.chdir(old)
            shutil.rmtree(d)
        out = []
        if [(str(a), int(b)) for a, b in zip(im.variables.iloc[:, 0], im.variables.iloc[:, 1])] != list(zip(ls, net['cards'])):
            out.append('variables %s' % im.variables.values.tolist())
        got = [tuple(map(str, r)) for r in im.structure.values.tolist()]
        if got != [tuple(x) for x in net['edges']]:
            out.append('edges %s, not %s' % (got, net['edges']))
        exp = [[dt] + list(a) + list(b) for dt, a, b in pairs(ds)]
        out += C06.diff(exp, [[float(v) for v in r] for r in im.concatenated_samples.to_numpy().tolist()], 'read back')
        if out:
            return out
        g = TrajectoryGenerator(importer=im)
        if g._vnames != ls or {v: list(map(str, g._parents[v])) for v in ls} != net['parents']:
            return ['parents %s, not %s' % (g._parents, net['parents'])]
        for v in ls:
            ps = net['parents'][v]
            for i, c in enumerate(configs([net['cards'][ls.index(p)] for p in ps])):
                sel = g._cims[v].filter_cims_with_mask(np.array([True for p in ps]), list(c))
                m = sel[c[0]].cim if len(ps) == 1 else sel[0].cim
                if len(ps) != 1 and len(sel) != 1:
                    return ['%s under %s: %d matrices' % (v, c, len(sel))]
                if np.asarray(m).shape != np.asarray(net['cims'][v][i]).shape or not np.array_equal(np.asarray(m, dtype=float), np.array(net['cims'][v][i])):
                    return ['%s under %s: the matrix used is %s, the exported one %s' % (v, c, np.asarray(m).tolist(), net['cims'][v][i])]
        with recorder() as log:
            tr = g.CTBN_Sample(max_tr=10)
        if any(e[0] == 'exp' and np.ndim(e[2]) == 0 for e in log) and any(e[0] == 'mult' for e in log):
            return follow(net, tr, log, -1, 10)[0]


class C26(Base):
    """A case is a network and 1-6 requested end times or numbers of transitions, sampled in parallel; every result is matched with a request and results of equal requests must differ."""

    @staticmethod
    def gen(rng, i):
        net = net_case(rng, i, 3, 4.0, 0)
        k = rng.randint(1, 6)
        kind = rng.choice(['tr', 'tr', 'end', 'both'])
        trs = [rng.choice([20, 40, 60, 60, 80]) for _ in range(k)] if kind != 'end' else None
        ends = [rng.choice([10.0, 10.0, 20.0, 30.0]) for _ in range(k)] if kind != 'tr' else None
        if kind == 'both':
            trs = trs[:rng.randint(1, k)]
        for v in net['labels']:
            net['cims'][v] = [[[x * 3 for x in r] for r in m] for m in net['cims'][v]]
        return dict(net=net, trs=trs, ends=ends, same=rng.random() < .4)

    @staticmethod
    def run(case):
        net = case['net']
        trs, ends = case['trs'], case['ends']
        if case['same']:
            trs = [60] * len(trs) if trs is not None else None
            ends = [10.0] * len(ends) if ends is not None else None
        var, dyn, cims = net_parts(net)
        g = TrajectoryGenerator(variables=var, dyn_str=dyn, dyn_cims=cims)
        res = list(g.multi_trajectory(t_ends=ends, max_trs=trs))
        want = ends if ends is not None else trs
        if len(res) != len(want):
            return ['%d trajectories for %d requests' % (len(res), len(want))]
        for tr in res:
            m = well_formed(net, tr, -1, -1)
            if m:
                return m
        if ends is None:
            got = sorted(len(tr) - 1 for tr in res)
            if got != sorted(trs):
                return ['%s jumps for the requests %s' % (got, sorted(trs))]
        else:
            last = sorted(float(tr['Time'].iloc[-1]) for tr in res)
            slow = min(-m[x][x] for v in net['labels'] for m in net['cims'][v] for x in range(len(m)))
            for a, b in zip(last, sorted(ends)):
                if a > b + 5.1e-5 or b - a > 40.0 / (slow * len(net['labels'])):
                    return ['trajectories end at %s, requested %s' % (last, sorted(ends))]
        for a, b in itertools.combinations(res, 2):
            k = min(len(a), len(b), 15) - 1
            if k >= 8 and a.iloc[:k].reset_index(drop=True).equals(b.iloc[:k].reset_index(drop=True)):
                return ['two workers drew the same trajectory']
