"""Worlds, samplers and reference roadmaps for the roadmap checks."""
import hashlib
import importlib
import math
import os
import sys

import numpy as np
from hypothesis import strategies as st
from vlib import gen
from vlib.core import VERIF, Violation, require

FLAVOURS = ('pynndescent', 'kgraph')
_loaded = {}


def modules(flavour):
    """(ann, prm) as imported with or without the optional kgraph backend."""
    if flavour in _loaded:
        return _loaded[flavour]
    for name in ('nonasymptotic.ann', 'nonasymptotic.prm'):
        sys.modules.pop(name, None)
    if flavour == 'kgraph':
        d = os.path.join(VERIF, 'stubs', 'kgraph')
        sys.modules.pop('kgraph', None)
        sys.path.insert(0, d)
        import kgraph
        sys.modules['kgraph_double'] = kgraph
        sys.path.remove(d)
    else:
        sys.modules['kgraph'] = None
    ann = importlib.import_module('nonasymptotic.ann')
    prm = importlib.import_module('nonasymptotic.prm')
    for name in ('nonasymptotic.ann', 'nonasymptotic.prm'):
        sys.modules.pop(name, None)
    _loaded[flavour] = ann, prm
    return ann, prm


def tol(flavour):
    """Relative accuracy of neighbour distances (kgraph works in single precision)."""
    return 2e-5 if flavour == 'kgraph' else 1e-9


class World:
    """Samples in a fixed order and a symmetric validity relation, all derived from the case."""

    def __init__(self, case):
        self.dim = case['dim']
        self.rule = case['rule']
        self.salt = str(case['seed'])
        self.lattice = case.get('lattice', 0)
        # (the kgraph flavour rounds the coordinates to 24 bits)
        self.scale = min(case.get('scale', 1.0), 40.0 if case.get('flavour') == 'kgraph' else math.inf)
        # (kgraph works in single precision: no large coordinates there)
        self.offset = 0.0 if case.get('flavour') == 'kgraph' else case.get('offset', 0.0)
        self.flat = case.get('flat', False)
        self.rng = np.random.default_rng(case['seed'])
        self.drawn = []
        self.checked = 0
        self.ball = None
        if self.rule[0] == 'ball':
            self.ball = np.concatenate([[0.5], np.zeros(self.dim - 1)])

    def sample(self):
        if self.lattice:
            p = self.rng.integers(0, self.lattice + 1, self.dim) / self.lattice
        elif self.flat == 2:  # one crowd among scattered points
            p = self.rng.uniform(0, 1, self.dim)
            if self.rng.uniform() < 0.35:
                p = 0.5 + 0.15 * self.rng.normal(0, 1, self.dim)
        elif self.flat:      # dense and sparse parts, so that neighbour distances differ a lot
            p = self.rng.uniform(0, 1, self.dim) ** 3
        else:
            p = self.rng.uniform(0, 1, self.dim)
        if self.dim > 1:
            p[1:] -= 0.5
        p = self.place(np.asarray(p, dtype=float))
        self.drawn.append(p.copy())
        return p

    def place(self, p):
        return p * self.scale + self.offset

    def valid(self, a, b):
        kind = self.rule[0]
        if kind == 'all':
            return True
        if kind == 'hash':
            ka, kb = sorted((a.tobytes(), b.tobytes()))
            if ka == kb:
                return True
            h = hashlib.blake2b(ka + kb + self.salt.encode(), digest_size=4).digest()
            return int.from_bytes(h, 'big') / 2 ** 32 < self.rule[1]
        if b.tobytes() < a.tobytes():    # the same verdict in both directions, to the last bit
            a, b = b, a
        if self.scale != 1.0 or self.offset:
            a, b = (a - self.offset) / self.scale, (b - self.offset) / self.scale
        if kind == 'wall':   # a wall across the world, open in part of it
            if (a[0] - 0.5) * (b[0] - 0.5) >= 0:
                return True
            t = (0.5 - a[0]) / (b[0] - a[0])
            return abs((a + t * (b - a))[-1]) < self.rule[1]
        if kind == 'ball':   # a round obstacle
            u = b - a
            n = float(u @ u)
            t = 0.0 if n == 0 else min(1.0, max(0.0, float((self.ball - a) @ u) / n))
            return bool(np.linalg.norm(a + t * u - self.ball) > self.rule[1])
        raise AssertionError(kind)

    def check_motion(self, starts, goals):
        starts = np.asarray(starts, dtype=float)
        goals = np.asarray(goals, dtype=float)
        if starts.shape != goals.shape or starts.ndim != 2 or starts.shape[1] != self.dim:
            raise Violation('the motion checker was called with shapes %s and %s in dimension %d'
                            % (starts.shape, goals.shape, self.dim))
        self.checked += len(starts)
        return np.array([self.valid(a + 0.0, b + 0.0) for a, b in zip(starts, goals)], dtype=bool)

    def dist_to_path(self, pts):
        """Distance to the segment from the origin to the first unit vector."""
        pts = (np.asarray(pts, dtype=float) - self.offset) / self.scale
        x = np.clip(pts[..., 0], 0.0, 1.0)
        rest = pts[..., 1:] if self.dim > 1 else np.zeros(pts.shape[:-1] + (1,))
        return np.sqrt((pts[..., 0] - x) ** 2 + np.sum(rest ** 2, axis=-1)) * self.scale


@st.composite
def world(draw, distinct=False, max_dim=5):
    dim = draw(st.sampled_from(list(range(1, max_dim + 1)) * 2 + [9]))
    rule = draw(st.sampled_from([['all'], ['hash', 0.9], ['hash', 0.6], ['hash', 0.3], ['wall', 0.2], ['ball', 0.2],
                                 ['hash', 0.0]]))
    lattice = 0 if distinct else draw(st.sampled_from([0, 0, 2, 4, 8]))
    return {'dim': dim, 'seed': draw(gen.seeds()), 'rule': rule, 'lattice': lattice,
            'flat': draw(st.sampled_from([False, True, 2])), 'scale': draw(st.sampled_from([1.0, 1.0, 1.0, 0.05, 40.0, 3000.0])),
            'offset': draw(st.sampled_from([0.0, 0.0, 0.0, 500.0]))}


def near_a_distance():
    """A radius just below or above the distance of two samples."""
    return st.builds(lambda i, j, s, e: ['near', i, j, s * 10.0 ** -e], st.integers(0, 60), st.integers(0, 60),
                     st.sampled_from([-1, 1]), gen.in_range(3.0, 8.0))


def resolve_radius(r, pts, scale=1.0):
    if not isinstance(r, list):
        return r * scale
    i, j = r[1] % len(pts), r[2] % len(pts)
    return float(np.sqrt(((pts[i] - pts[j]) ** 2).sum()) * (1 + r[3]))


def pairs_dist(pts):
    return np.sqrt(((pts[:, None, :] - pts[None, :, :]) ** 2).sum(axis=2))


def valid_matrix(w, pts):
    n = len(pts)
    m = np.zeros((n, n), dtype=bool)
    for i in range(n):
        for j in range(i):
            m[i, j] = m[j, i] = w.valid(pts[i] + 0.0, pts[j] + 0.0)
    return m


def graph_edges(g, n):
    """{(i, j): weight} for i < j of the roadmap graph, self loops left out; ids must be those of samples."""
    out = {}
    for u, v, wt in list(g.iterEdgesWeights()):
        if u == v:
            continue
        key = (min(u, v), max(u, v))
        require(key[1] < n, 'the roadmap has an edge %s, but only %d samples', key, n)
        require(key not in out, 'the roadmap joins samples %s twice', key)
        out[key] = wt
    return out


def compare(prm, n, want, unsure, dist, rel, what='roadmap'):
    """want/unsure: sets of (i, j) with i < j."""
    require(prm.prm_graph is not None, '%s: no graph', what)
    require(prm.num_vertices() == n, '%s: %d vertices for %d samples', what, prm.num_vertices(), n)
    got = graph_edges(prm.prm_graph, n)
    for e in want:
        require(e in got or e in unsure, '%s: edge %s (distance %r) is missing', what, list(e), float(dist[e]))
    for e, wt in got.items():
        require(e in want or e in unsure, '%s: edge %s (distance %r) does not belong there', what, list(e),
                float(dist[e]))
        require(abs(wt - dist[e]) <= rel * (1 + dist[e]) + 1e-12, '%s: edge %s has weight %r, distance %r', what,
                list(e), wt, float(dist[e]))
    return got


def samples_follow(w, start, pts, what='samples'):
    """pts must be a subsequence of the sampler's draws from index `start` on."""
    i = start
    for row in pts:
        while i < len(w.drawn) and not np.array_equal(w.drawn[i], row):
            i += 1
        require(i < len(w.drawn), '%s: a sample was not drawn from the sampler (in this order)', what)
        i += 1
    return i


def within(dist, valid, r, rel):
    """Pairs joined by a radius roadmap, and those too close to the radius to judge."""
    want, unsure = set(), set()
    n = len(dist)
    for i in range(n):
        for j in range(i + 1, n):
            if abs(dist[i, j] - r) <= rel * (1 + abs(r)):
                if valid[i, j]:
                    unsure.add((i, j))
            elif dist[i, j] < r and valid[i, j]:
                want.add((i, j))
    return want, unsure


def neighbour_pairs(dist, k, self_first):
    """(sure, unsure) pairs among the k nearest, ties unsure.  `k` counts the sample itself when self_first."""
    n = len(dist)
    sure, unsure = set(), set()
    others = k - 1 if self_first else k
    for i in range(n):
        row = [(dist[i, j], j) for j in range(n) if j != i]
        row.sort()
        m = min(others, n - 1)
        if m <= 0:
            continue
        edge = row[m - 1][0]
        for pos, (d, j) in enumerate(row):
            key = (min(i, j), max(i, j))
            tie = abs(d - edge) <= 1e-9 * (1 + edge) and m < n - 1 and (
                sum(abs(x - edge) <= 1e-9 * (1 + edge) for x, _ in row) > 1)
            if tie:
                unsure.add(key)
            elif pos < m:
                sure.add(key)
    return sure, unsure - sure


def kth_distance(dist, k, self_first):
    """Smallest distance of a sample to its k-th neighbour."""
    n = len(dist)
    out = math.inf
    others = k - 1 if self_first else k
    for i in range(n):
        row = np.sort(np.delete(dist[i], i))
        out = min(out, row[min(others, n - 1) - 1] if others > 0 else 0.0)
    return float(out)


def connections(w, pts, q, r, rel):
    """{sample: distance} of the samples the end q connects to; None where the radius is too close to a distance."""
    d = np.sqrt(((pts - q) ** 2).sum(axis=1))
    if np.any(np.abs(d - r) <= 4 * rel * (1 + r)):
        return None
    return {i: float(d[i]) for i in range(len(pts)) if d[i] < r and w.valid(q + 0.0, pts[i] + 0.0)}


def shortest_path(n, edges, s_conn, g_conn):
    """(length, number of samples) of the shortest start-goal path; (inf, 0) if there is none.

    edges {(i, j): weight}, s_conn/g_conn {sample: length of the end's connection}."""
    import heapq
    adj = {i: [] for i in range(n)}
    for (i, j), wt in edges.items():
        adj[i].append((j, wt))
        adj[j].append((i, wt))
    seen = set()
    h = [(wt, 1, i) for i, wt in s_conn.items()]
    heapq.heapify(h)
    best = (math.inf, 0)
    while h:
        d, hops, u = heapq.heappop(h)
        if u in seen:
            continue
        seen.add(u)
        if u in g_conn:
            best = min(best, (d + g_conn[u], hops))
        for v, wt in adj[u]:
            if v not in seen:
                heapq.heappush(h, (d + wt, hops + 1, v))
    return best


def distances_from(n, edges, source):
    """Length of the shortest path from one sample to every other."""
    import heapq
    adj = {i: [] for i in range(n)}
    for (i, j), wt in edges.items():
        adj[i].append((j, wt))
        adj[j].append((i, wt))
    out = [math.inf] * n
    out[source] = 0.0
    h = [(0.0, source)]
    while h:
        d, u = heapq.heappop(h)
        if d > out[u]:
            continue
        for v, wt in adj[u]:
            if d + wt < out[v]:
                out[v] = d + wt
                heapq.heappush(h, (d + wt, v))
    return out


def shortest(n, edges, s_conn, g_conn):
    return shortest_path(n, edges, s_conn, g_conn)[0]


def infinite(x):
    return x >= 1e300


def written(flavour):
    """Paths the doubles were asked to write so far."""
    import networkit
    out = list(networkit.WRITTEN)
    if flavour == 'kgraph':
        modules('kgraph')
        out += sys.modules['kgraph_double'].WRITTEN
    return out
