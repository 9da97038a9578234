# PY: venv
# STUBS: core
"""P17: both nearest-neighbour backends return the nearest neighbours, in order."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, Violation, require
from vlib import gen, roads

ID = 'P17'


@st.composite
def cases(draw):
    flavour = draw(st.sampled_from(roads.FLAVOURS))
    ask = draw(st.sampled_from(['kgraph', 'kgraph', 'pynndescent', None]))
    n = draw(st.integers(3, 40))
    return {'flavour': flavour, 'ask': ask, 'dim': draw(st.integers(1, 9)), 'n': n, 'k': draw(st.integers(1, n)),
            'updates': draw(st.lists(st.integers(1, 9), max_size=3)), 'seed': draw(gen.seeds()),
            'lattice': draw(st.sampled_from([0, 0, 0, 3])), 'scale': draw(st.sampled_from([1.0, 1.0, 0.01, 100.0])),
            'shift': draw(st.sampled_from([0.0, 0.0, -0.5, -1.0])), 'early_update': draw(st.booleans()),
            'rebuild': draw(st.booleans())}


def data(rng, case, n):
    if case['lattice']:
        x = rng.integers(0, case['lattice'] + 1, (n, case['dim'])) / case['lattice']
    else:
        x = rng.uniform(0, 1, (n, case['dim']))
    return (x + case['shift']) * case['scale']


def judge(edges, dists, pts, k, self_first, rel, what):
    edges, dists = np.asarray(edges), np.asarray(dists, dtype=float)
    n = len(pts)
    require(edges.shape[:1] == (n,) and edges.shape == dists.shape, '%s: lists of shape %s and %s for %d samples', what,
            edges.shape, dists.shape, n)
    require(edges.shape[1] == k, '%s: %d neighbours instead of %d', what, edges.shape[1], k)
    require(np.issubdtype(edges.dtype, np.integer), '%s: neighbour ids are not integers', what)
    scale = float(np.abs(pts).max()) + 1e-300
    eps = rel * (scale * (1 if rel > 1e-6 else 10))
    rows = range(n) if n <= 600 else sorted(set(np.random.default_rng(n).integers(0, n, 200)) | {0, n - 1})
    for i in rows:
        ids = [int(x) for x in edges[i]]
        require(len(set(ids)) == k and all(0 <= j < n for j in ids), '%s: neighbours of %d are %s', what, i, ids)
        require((i in ids) == self_first, '%s: %d is %sin its own list', what, i, '' if i in ids else 'not ')
        row = np.sqrt(((pts - pts[i]) ** 2).sum(axis=1))
        true = row[ids]
        require(np.all(np.abs(true - dists[i]) <= eps + rel * true), '%s: distances of %d are %s, reported %s', what, i,
                true.tolist(), dists[i].tolist())
        require(np.all(np.diff(dists[i]) >= -eps), '%s: the list of %d is not ordered', what, i)
        if not self_first:
            row = np.delete(row, i)
        best = np.sort(row)[:k]
        require(np.all(np.abs(np.sort(true) - best) <= 2 * eps), '%s: the list of %d has distances %s, the nearest '
                '%s', what, i, np.sort(true).tolist(), best.tolist())


def run(case, ctx):
    A, _ = roads.modules(case['flavour'])
    with contextlib.redirect_stdout(io.StringIO()):
        ann = A.get_ann(case['ask']) if case['ask'] is not None else A.get_ann()
    native = case['flavour'] == 'kgraph' and case['ask'] == 'kgraph'
    rel = 1e-5 if native else 1e-9     # half squared single-precision distances
    rng = np.random.default_rng(case['seed'])
    pts = data(rng, case, case['n'])
    k = min(case['k'], case['n'] - 1 if native else case['n'])
    if case['early_update']:
        try:
            ann.update_graph_with_data(data(rng, case, 2))
        except Exception:
            pass
        else:
            raise Violation('an update before any build was not refused')
    keep = pts.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        e, d = ann.new_graph_from_data(pts, k)
    require(np.array_equal(keep, pts), 'building changed the data')
    judge(e, d, pts, k, not native, rel, 'build')
    for m in case['updates']:
        fresh = data(rng, case, m)
        pts = np.concatenate([pts, fresh])
        e, d = ann.update_graph_with_data(fresh)
        judge(e, d, pts, k, not native, rel, 'update')
    if case['rebuild']:
        pts = data(rng, case, case['n'] + 1)
        e, d = ann.new_graph_from_data(pts, k)
        judge(e, d, pts, k, not native, rel, 'second build')
        fresh = data(rng, case, 2)
        e, d = ann.update_graph_with_data(fresh)
        judge(e, d, np.concatenate([pts, fresh]), k, not native, rel, 'update of the second build')
    ctx.label('kgraph' if native else 'pynndescent')
    ctx.nt(case['dim'] % 4 != 0 or bool(case['updates']))


def run_names(case, ctx):
    A, _ = roads.modules(case['flavour'])
    require(isinstance(A.get_ann('pynndescent'), A.PyNNDescentANN), 'pynndescent is not what was asked for')
    with contextlib.redirect_stdout(io.StringIO()):
        got = A.get_ann('kgraph')
    want = A.KGraphANN if case['flavour'] == 'kgraph' else A.PyNNDescentANN
    require(isinstance(got, want), 'asked for kgraph (%savailable), got %s',
            '' if case['flavour'] == 'kgraph' else 'not ', type(got).__name__)
    if case['name'] not in ('kgraph', 'pynndescent'):
        try:
            A.get_ann(case['name'])
        except Exception:
            pass
        else:
            raise Violation('the unknown backend %r was not refused' % case['name'])
    ctx.nt(True)


names = st.fixed_dictionaries({'flavour': st.sampled_from(roads.FLAVOURS),
                               'name': st.sampled_from(['kgraph', 'pynndescent', 'faiss', '', 'KGRAPH'])})
@st.composite
def large(draw):
    c = draw(cases())
    c['n'] = draw(st.integers(60, 400))
    c['k'] = draw(st.one_of(st.integers(1, 60), st.integers(1, c['n'])))
    c['dim'] = draw(st.sampled_from([1, 2, 3, 4, 7, 8, 12, 17, 30]))
    c['updates'] = [draw(st.integers(1, 150)) for _ in c['updates']]
    return c


@st.composite
def thousands(draw):
    c = draw(large())
    c['n'] = draw(st.sampled_from([1030, 2100, 4200]))
    c['dim'] = draw(st.sampled_from([1, 2, 3, 4]))
    c['k'] = draw(st.integers(1, 12))
    c['updates'] = c['updates'][:1]
    c['rebuild'] = False
    return c


SUBS = [Sub('thousands of samples', thousands(), run, quick=24, thorough=200),
        Sub('neighbours', cases(), run, quick=4000, thorough=60000),
        Sub('many samples', large(), run, quick=160, thorough=4000),
        Sub('backend', names, run_names, quick=80, thorough=80)]
