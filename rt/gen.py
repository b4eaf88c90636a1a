"""Case generators and independent brute-force statistics for the runtime oracles."""
import itertools
import os
import sys
import warnings

warnings.simplefilter('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import numpy as np
import pandas as pd

LABELS = ['X', 'XS', 'X1', 'X10', 'X2', 'b', 'A', 'node 3', 'Zed', 'q_1', 'BS', 'B', 'state', 'val']


def labels(rng, n):
    pool = LABELS
    if n <= 10 and rng.random() < .15:
        # labels that are concatenations of one another
        pool = ['x', 'y', 'xx', 'xy', 'yx', 'yy', 'xxy', 'xyx', 'yxy', 'yyx', 'S', 'xS', 'SS']
    ls = rng.sample(pool, n)
    rng.shuffle(ls)
    return ls


def cards(rng, n, lo=2, hi=4, big=0.15):
    return [rng.randint(9, 12) if rng.random() < big else rng.randint(lo, hi) for _ in range(n)]


def trajectories(rng, n_vars, cs, n_traj=None, rows=None, jumpy=0.7):
    """list of trajectories; each a list of rows [t, s0, ...] with exact binary times"""
    out = []
    n_traj = n_traj or rng.randint(1, 4)
    for _ in range(n_traj):
        m = rows or rng.choice([1, 2, 3, 5, 12, 40, 40, 80])
        t, st = 0, [rng.randrange(c) for c in cs]
        tr = [[t / 64.0] + list(st)]
        for _ in range(m - 1):
            t += rng.choice([0, 1, 3, 8, 40, 100])
            if rng.random() < jumpy:
                i = rng.randrange(n_vars)
                st[i] = rng.randrange(cs[i])
            else:
                for i in range(n_vars):
                    st[i] = rng.randrange(cs[i])
            row = [t / 64.0] + list(st)
            tr.append(row)
        if rng.random() < 0.5 and len(tr) > 1:
            k = len(tr) - 1
            tr[k] = [tr[k][0]] + [-1] * n_vars
        out.append(tr)
    if all(len(tr) < 2 for tr in out):
        return trajectories(rng, n_vars, cs, n_traj, rows or 5, jumpy)
    return out


def dataset(rng, n=None, rows=None, n_traj=None, lo=2, hi=4, big=0.12, maxn=5):
    n = n or rng.randint(1, maxn)
    ls = labels(rng, n)
    cs = cards(rng, n, lo, hi, big)
    return dict(labels=ls, cards=cs, time=rng.choice(['Time', 'Time', 't', 'stamp']), trs=trajectories(rng, n, cs, n_traj, rows))


def frames(ds):
    return [pd.DataFrame([list(r) for r in tr], columns=[ds['time']] + ds['labels']).astype({l: int for l in ds['labels']}) for tr in ds['trs']]


def variables(ds):
    return pd.DataFrame(list(zip(ds['labels'], ds['cards'])), columns=['Name', 'Value'])


def sample_path(ds, prior=None):
    from PyCTBN.PyCTBN.utility.sample_importer import SampleImporter
    from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath
    pr = pd.DataFrame(prior, columns=['From', 'To']) if prior is not None else None
    im = SampleImporter(frames(ds), variables(ds), pr)
    im.import_data()
    sp = SamplePath(im)
    sp.build_trajectories()
    sp.build_structure()
    return sp


def pairs(ds):
    """(dt, states, next states) for every pair of consecutive rows of every trajectory"""
    out = []
    for tr in ds['trs']:
        for a, b in zip(tr, tr[1:]):
            out.append((b[0] - a[0], a[1:], b[1:]))
    return out


def configs(cs):
    """parent configurations, the first parent varying fastest"""
    return [tuple(reversed(c)) for c in itertools.product(*[range(k) for k in reversed(cs)])]


def stats(ds, d, ps):
    n = ds['cards'][d]
    cf = configs([ds['cards'][p] for p in ps])
    T = {c: [0.0] * n for c in cf}
    M = {c: [[0] * n for _ in range(n)] for c in cf}
    for dt, a, b in pairs(ds):
        c = tuple(a[p] for p in ps)
        T[c][a[d]] += dt
        if b[d] >= 0 and b[d] != a[d]:
            M[c][a[d]][b[d]] += 1
    for c in cf:
        for x in range(n):
            M[c][x][x] = sum(M[c][x][y] for y in range(n) if y != x)
    return cf, T, M


def network(sp, edges):
    """a network over all the variables of the sample path with these edges"""
    from PyCTBN.PyCTBN.structure_graph.structure import Structure
    from PyCTBN.PyCTBN.structure_graph.network_graph import NetworkGraph
    st = sp.structure
    s = Structure(list(st.nodes_labels), np.array(st.nodes_indexes), np.array(st.nodes_values), list(edges), st.total_variables_number)
    return NetworkGraph(s)


def estimate(sp, g, node):
    from PyCTBN.PyCTBN.estimators.parameters_estimator import ParametersEstimator
    g.fast_init(node)
    pe = ParametersEstimator(sp.trajectories, g)
    pe.fast_init(node)
    return pe.compute_parameters_for_node(node)


def close(a, b, rel=1e-9, ab=1e-9):
    a, b = float(a), float(b)
    if a != a or b != b:
        return (a != a) == (b != b)
    if a == b:
        return True
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def random_edges(rng, ls, p=0.5, maxpar=3):
    es = []
    for v in ls:
        ps = [u for u in ls if u != v and rng.random() < p]
        rng.shuffle(ps)
        es += [(u, v) for u in ps[:maxpar]]
    rng.shuffle(es)
    return es
