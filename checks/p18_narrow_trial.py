# PY: venv
# STUBS: core pandaslite
"""P18: the narrow-passage trial's records bracket the true connection threshold."""
import contextlib
import io
import math
import os

import networkit
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, HarnessLimit, require
from vlib import gen, geo, roads
import nonasymptotic.prm as P
from exps import run_narrow_passage_clearance_trial as T

ID = 'P18'
COLUMNS = ['prm_type', 'dim', 'delta_clearance', 'n_samples', 'conn_lb', 'conn_ub', 'thresh_path_dist',
           'thresh_path_len', 'build_time', 'check_time', 'info', 'seed']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['radius', 'radius', 'knn']))
    dim = draw(st.sampled_from([2, 2, 2, 3, 4, 2, 2, 3, 6]))
    c = draw(st.one_of(gen.in_range(0.2, 0.5), gen.in_range(0.02, 0.5), st.sampled_from([0.499, 0.25, 0.125])))
    if kind == 'knn':
        conn = draw(st.one_of(st.integers(6, 16), st.integers(6, 24)))
        sched = [draw(st.integers(conn + 2, conn + 40))]
    else:
        conn = draw(st.sampled_from([0.15, 0.3, 0.6, 0.8, 1.0, 1.3, 1.7])) * (0.7 + 0.6 * draw(gen.unit()))
        sched = [draw(st.one_of(st.integers(1, 15), st.integers(8, 40)))]
    for _ in range(draw(st.integers(0, 2))):
        sched.append(sched[-1] + draw(st.integers(1, 20)))
    return {'kind': kind, 'dim': dim, 'clearance': c, 'max': conn, 'schedule': sched, 'seed': draw(gen.seeds())}


class Recorder:
    """Notes the samples after every growth of any roadmap."""

    def __enter__(self):
        self.snaps = {}
        self.saved = []
        for cls in (P.SimpleFullConnRadiusPRM, P.SimpleNearestNeighborRadiusPRM, P.SimpleRadiusPRM):
            self.saved.append((cls, cls.__dict__['grow_to_n_samples']))

            def grow(prm, n, *a, _orig=cls.grow_to_n_samples, **k):
                out = _orig(prm, n, *a, **k)
                self.snaps[int(n)] = np.array(prm.prm_samples, dtype=float)
                return out
            cls.grow_to_n_samples = grow
        return self

    def __exit__(self, *exc):
        for cls, f in self.saved:
            cls.grow_to_n_samples = f


class Reference:
    def __init__(self, case, pts):
        self.case, self.pts, self.n = case, pts, len(pts)
        self.dist = roads.pairs_dist(pts)
        self.doubt = False
        c, dim = case['clearance'], case['dim']
        self.valid = np.zeros((self.n, self.n), dtype=bool)
        for i in range(self.n):
            for j in range(i):
                self.valid[i, j] = self.valid[j, i] = self.free(pts[i], pts[j])
        off = 0.5 - c
        self.start = np.array([-1.0 - off] + [-off] * (dim - 1))
        self.goal = np.array([1.0 + off] + [off] * (dim - 1))
        self.ends = []
        for q in (self.start, self.goal):
            d = np.sqrt(((pts - q) ** 2).sum(axis=1))
            self.ends.append((d, [self.free(q, p) for p in pts]))

    def free(self, a, b):
        c = self.case['clearance']
        if geo.narrow_free_margin(a, c) < 0 or geo.narrow_free_margin(b, c) < 0:
            return False
        slack, gap = geo.narrow_motion_slack(a, b, c)
        if slack is None:
            return True
        if abs(slack) < 1e-9:
            self.doubt = True
        return slack > 0

    def conns(self, r):
        out = []
        for d, ok in self.ends:
            if np.any(np.abs(d - r) < 1e-9):
                self.doubt = True
            out.append({i: float(d[i]) for i in range(self.n) if ok[i] and d[i] <= r})
        return out

    def radius(self, r):
        top = r * (1 + 1e-12)
        edges = {(i, j): float(self.dist[i, j]) for i in range(self.n) for j in range(i + 1, self.n)
                 if self.valid[i, j] and self.dist[i, j] <= top}
        return roads.shortest_path(self.n, edges, *self.conns(r))

    def knn(self, k, kmax):
        cert = roads.kth_distance(self.dist, kmax, True)
        sure, unsure = roads.neighbour_pairs(self.dist, k, True)
        if unsure:
            self.doubt = True
        edges = {e: float(self.dist[e]) for e in sure if self.valid[e]}
        return roads.shortest_path(self.n, edges, *self.conns(cert))


def nan(x):
    return x is None or x != x


def judge(row, ref, case, ctx):
    kind, top = case['kind'], case['max']
    lb, ub = row['conn_lb'], row['conn_ub']
    n = ref.n
    if kind == 'knn':
        settings = [2 ** i for i in range(2, round(math.log2(top)) + 1)]

        def solve(v, last):
            return ref.knn(top if last else v, top)
    else:
        ds = sorted(float(ref.dist[i, j]) for i in range(n) for j in range(i) if ref.valid[i, j] and ref.dist[i, j] <= top)
        settings = [d for i, d in enumerate(ds) if i == 0 or d > ds[i - 1] * (1 + 1e-12)]
        if any(b - a < 1e-9 for a, b in zip(settings, settings[1:])) or any(abs(d - top) < 1e-9 for d in ds):
            ref.doubt = True

        def solve(v, last):
            return ref.radius(top if last else v)
    if ref.doubt:
        ctx.label('too close to judge')
        return
    if not settings:
        require(nan(lb) and nan(ub) and nan(row['thresh_path_dist']) and nan(row['thresh_path_len']),
                'a roadmap without connections has a threshold: %s', row)
        require(isinstance(row['info'], str) and row['info'], 'a roadmap without connections is recorded without saying so')
        ctx.label('no connections')
        return

    def index(v, what):
        if nan(v):
            return None
        i = int(np.argmin([abs(s - v) for s in settings]))
        require(abs(settings[i] - v) <= 1e-9, '%s %r is not a connection setting', what, v)
        return i

    i_lb, i_ub = index(lb, 'lower setting'), index(ub, 'upper setting')
    end = len(settings) - 1
    if ref.doubt:
        return
    if i_ub is None:
        length, _ = solve(settings[-1], len(settings) > 1)
        if ref.doubt:
            return
        require(math.isinf(length), 'recorded as unsolvable (%s), but the largest setting has a path of length %r', row,
                length)
        require(nan(row['thresh_path_dist']) and nan(row['thresh_path_len']), 'a path is recorded with no setting that '
                'has one: %s', row)
        require(isinstance(row['info'], str) and row['info'], 'no setting works, but the record does not say so')
        require(i_lb == end, 'no setting works, but the lower setting %r is not the largest', lb)
        ctx.label('no path')
        return
    if len(settings) == 1:
        length, size = solve(settings[0], False)
    else:
        require(i_lb is not None and i_lb + 1 == i_ub, 'the recorded settings %r and %r are not neighbours', lb, ub)
        length, size = solve(settings[i_ub], i_ub == end)
    if ref.doubt:
        return
    require(not math.isinf(length), 'the recorded upper setting %r has no path', ub)
    require(not nan(row['thresh_path_dist']) and abs(row['thresh_path_dist'] - length) <= 1e-5 * (1 + length),
            'path length %r is recorded, the upper setting %r has %r', row['thresh_path_dist'], ub, length)
    require(row['thresh_path_len'] == size, 'path size %r is recorded, the upper setting %r has %d', row['thresh_path_len'],
            ub, size)
    if i_lb is not None and i_lb > 0:
        length, _ = solve(settings[i_lb], False)
        if ref.doubt:
            return
        require(math.isinf(length), 'the recorded lower setting %r has a path of length %r', lb, length)
    ctx.label('threshold')
    ctx.nt(i_ub < end)


def run(case, ctx):
    before = len(networkit.WRITTEN)
    with Recorder() as rec, contextlib.redirect_stdout(io.StringIO()):
        df = T.narrow_passage_clearance(case['clearance'], case['dim'], rng_seed=case['seed'],
                                        sample_schedule=list(case['schedule']), prm_type=case['kind'],
                                        max_connections=case['max'])
    left = [p for p in dict.fromkeys(networkit.WRITTEN[before:]) if os.path.exists(p)]
    for p in left:
        os.remove(p)
    require(not left, 'the trial leaves temporary files behind: %s', left[:1])
    require(set(COLUMNS) <= set(df.columns), 'the record has columns %s', df.columns)
    rows = df.to_dict('records')
    require([r['n_samples'] for r in rows] == case['schedule'], 'records for sample counts %s, scheduled %s',
            [r['n_samples'] for r in rows], case['schedule'])
    for row in rows:
        require(row['prm_type'] == case['kind'] and row['dim'] == case['dim'] and row['seed'] == case['seed'] and
                row['delta_clearance'] == case['clearance'], 'a record does not name its parameters: %s', row)
        pts = rec.snaps.get(row['n_samples'])
        if pts is None:
            raise HarnessLimit('the growth to %d samples was not observed' % row['n_samples'])
        judge({k: row[k] for k in COLUMNS if not k.endswith('_time')}, Reference(case, pts), case, ctx)


SUBS = [Sub('records', cases(), run, quick=3000, thorough=40000)]
