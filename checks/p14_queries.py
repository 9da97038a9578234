# PY: venv
# STUBS: core
"""P14: roadmap queries return a shortest valid path or say there is none."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, roads

ID = 'P14'


@st.composite
def query_point(draw, dim):
    kind = draw(st.sampled_from(['path', 'near', 'any', 'sample', 'sample', 'near', 'near', 'far']))
    if kind == 'path':
        return ['path', draw(st.one_of(gen.unit(), st.sampled_from([0.0, 1.0])))]
    if kind == 'sample':
        return ['sample', draw(st.integers(0, 60))]
    if kind == 'near':
        return ['near', draw(st.integers(0, 60)), [draw(gen.unit()) * 0.2 - 0.1 for _ in range(dim)]]
    if kind == 'far':
        return ['at', [draw(st.sampled_from([-9.0, 9.0]))] * dim]
    return ['at', [draw(gen.unit())] + [draw(gen.unit()) - 0.5 for _ in range(dim - 1)]]


def resolve(q, pts, w):
    if q[0] == 'path':
        return w.place(np.array([q[1]] + [0.0] * (w.dim - 1)))
    if q[0] == 'sample':
        return pts[q[1] % len(pts)].copy()
    if q[0] == 'near':
        return pts[q[1] % len(pts)] + np.array(q[2]) * w.scale
    return w.place(np.array(q[1], dtype=float))


@st.composite
def cases(draw):
    w = draw(roads.world())
    kind = draw(st.sampled_from(['full', 'knn', 'knn', 'radius']))
    steps = []
    n = draw(st.integers(3, 28))
    c = dict(w, kind=kind, n=n, flavour='pynndescent', exp_mode=False)
    if kind == 'full':
        c['radius'] = draw(st.one_of(gen.in_range(0.1, 1.2), gen.in_range(0.4, 1.5), st.sampled_from([0.25, 0.5])))
    elif kind == 'radius':
        c['radius'] = draw(gen.in_range(0.1, 1.5))
        c['exp_mode'] = draw(st.booleans())
    else:
        c['k'] = draw(st.integers(2, 10))
        c['truncate'] = draw(st.booleans())
        c['exp_mode'] = draw(st.booleans())
        c['flavour'] = draw(st.sampled_from(roads.FLAVOURS))
        c['lattice'] = 0
    for _ in range(draw(st.integers(1, 6))):
        if kind == 'full' and draw(st.integers(0, 2)) == 0:
            steps.append(['radius', draw(st.one_of(gen.in_range(0.1, 1.5), gen.in_range(0.1, 1.5), st.sampled_from([0.0, 4.0])))])
        if kind == 'knn' and draw(st.integers(0, 2)) == 0:
            if draw(st.booleans()):
                steps.append(['radius', draw(st.one_of(gen.in_range(0.1, 1.0), gen.in_range(0.1, 1.0),
                                                          st.sampled_from([0.0, 1.0, 1.4])))])
            else:
                steps.append(['k', draw(st.integers(2, c['k']))])
        what = 'all' if c['exp_mode'] and draw(st.booleans()) else 'best'
        form = draw(st.sampled_from(['vector', 'vector', 'row']))
        earlier = [x for x in steps if x[0] == what]
        if earlier and draw(st.booleans()):     # the same query again, under other settings or after other queries
            steps.append(list(draw(st.sampled_from(earlier))))
            continue
        if what == 'all':
            qs = [['path', draw(gen.unit())], ['path', draw(gen.unit())]]
        else:
            qs = [draw(query_point(w['dim'])), draw(query_point(w['dim']))]
        steps.append([what, qs[0], qs[1], form])
        if draw(st.integers(0, 3)) == 0:
            steps.append(list(steps[-1]))
    c['steps'] = steps
    return c


class Model:
    """The roadmap as it should be under the current settings."""

    def __init__(self, case, w, prm, P):
        self.case, self.w, self.prm = case, w, prm
        self.pts = np.array(prm.prm_samples, dtype=float)
        self.dist = roads.pairs_dist(self.pts)
        self.valid = roads.valid_matrix(w, self.pts)
        self.rel = roads.tol(case['flavour'])
        self.prec = 1e-5 if case['flavour'] == 'kgraph' else 1e-8
        self.k = case.get('k')
        self.r = case['radius'] * w.scale if 'radius' in case else None
        if case['kind'] == 'knn':
            self.r = float(prm.certified_max_conn_r) if case['truncate'] else None
            self.cert = float(prm.certified_max_conn_r)
        self.n = len(self.pts)

    def conn_r(self):
        return self.r if self.r is not None else self.cert

    def edges(self):
        kind = self.case['kind']
        if kind in ('full', 'radius'):
            want, unsure = roads.within(self.dist, self.valid, self.r, 1e-9)
        else:
            sf = self.case['flavour'] == 'pynndescent'
            sure, unsure = roads.neighbour_pairs(self.dist, min(self.k, self.n - 1), sf)
            s2, u2 = roads.neighbour_pairs(self.dist, min(self.k, self.n), sf)
            unsure = (unsure | s2 | u2) - sure
            want = {e for e in sure if self.valid[e]}
            unsure = {e for e in unsure if self.valid[e]}
            if self.r is not None:
                edge = {e for e in want | unsure if abs(self.dist[e] - self.r) <= 2 * self.rel * (1 + self.r)}
                unsure = ({e for e in unsure if self.dist[e] < self.r} | edge)
                want = {e for e in want if self.dist[e] < self.r} - edge
        got = roads.compare(self.prm, self.n, want, unsure, self.dist, 2 * self.rel)
        return {e: float(self.dist[e]) for e in want | (unsure & set(got))}

    def connections(self, q):
        """Samples an end connects to, or None where the radius is too close to a distance."""
        return roads.connections(self.w, self.pts, q, self.conn_r(), self.rel)


def check_path(m, edges, s_conn, g_conn, path, length, ctx):
    path = np.asarray(path, dtype=float).reshape(-1, m.w.dim)
    require(len(path) >= 1, 'length %r reported with an empty path', length)
    ids = [[i for i in range(m.n) if np.array_equal(m.pts[i], row)] for row in path]
    for row, c in zip(path, ids):
        require(c, 'the path visits %s, which is not a sample', row.tolist())
    cost = {i: s_conn[i] for i in ids[0] if i in s_conn}
    require(cost, 'the first leg is not a connection of the start')
    for nxt in ids[1:]:
        new = {}
        for j in nxt:
            for i, c in cost.items():
                e = (min(i, j), max(i, j))
                if e in edges:
                    new[j] = min(new.get(j, math.inf), c + edges[e])
        require(new, 'a leg of the path is not an edge of the roadmap')
        cost = new
    last = [c + g_conn[i] for i, c in cost.items() if i in g_conn]
    require(last, 'the last leg is not a connection of the goal')
    require(abs(min(last) - length) <= m.prec * (1 + length), 'the path has length %r, reported %r', min(last), length)


def build(case, w, P):
    if case['kind'] == 'full':
        return P.SimpleFullConnRadiusPRM(case['radius'] * w.scale, w.check_motion, w.sample)
    if case['kind'] == 'radius':
        return P.SimpleRadiusPRM(case['radius'] * w.scale, w.check_motion, w.sample, w.dist_to_path)
    return P.SimpleNearestNeighborRadiusPRM(case['k'], w.check_motion, w.sample, w.dist_to_path,
                                            truncate_to_eff_rad=case['truncate'])


def steps_of(case):
    """The steps of a case, after very many more of the same kinds if it asks for them."""
    if 'many' not in case:
        return case['steps']
    import random
    rnd = random.Random(case['many'][0])

    def end():
        kind = rnd.choice(['path', 'near', 'sample', 'near'])
        if kind == 'path':
            return ['path', rnd.random()]
        if kind == 'sample':
            return ['sample', rnd.randrange(60)]
        return ['near', rnd.randrange(60), [rnd.uniform(-0.1, 0.1) for _ in range(case['dim'])]]

    return [['best', end(), end(), rnd.choice(['vector', 'row'])] for _ in range(case['many'][1])] + case['steps']


def run(case, ctx):
    _, P = roads.modules(case['flavour'])
    w = roads.World(case)
    prm = build(case, w, P)
    prm.in_mp_exp_mode = case['exp_mode']
    try:
        prm.grow_to_n_samples(case['n'])
        m = Model(case, w, prm, P)
        edges = m.edges()
        for i_step, step in enumerate(steps_of(case)):
            if step[0] == 'radius':
                m.r = step[1] * (m.cert if case['kind'] == 'knn' else w.scale)
                with contextlib.redirect_stdout(io.StringIO()):
                    prm.set_connection_radius(m.r)
                edges = m.edges()
                continue
            if step[0] == 'k':
                prm.set_nearest_neighbors(step[1])
                m.k = step[1]
                edges = m.edges()
                continue
            s, g = resolve(step[1], m.pts, w), resolve(step[2], m.pts, w)
            s_conn, g_conn = m.connections(s), m.connections(g)
            a, b = (s[None, :], g[None, :]) if step[3] == 'row' else (s, g)
            a, b = a.copy(), b.copy()
            n_ids = prm.num_vertices()
            if step[0] == 'best':
                length, path = prm.query_best_solution(a, b)
                if s_conn is not None and g_conn is not None:
                    want = roads.shortest(m.n, edges, s_conn, g_conn)
                    if math.isinf(want):
                        require(roads.infinite(length), 'length %r reported, but the ends are not connected', length)
                        require(len(path) == 0, 'a path of %d samples is returned with an infinite length', len(path))
                        ctx.label('no path')
                        ctx.nt(bool(s_conn) and bool(g_conn))
                    else:
                        require(not roads.infinite(length), 'no path reported, but there is one of length %r', want)
                        require(abs(length - want) <= m.prec * (1 + want), 'length %r reported, the shortest path has '
                                '%r', float(length), want)
                        check_path(m, edges, s_conn, g_conn, path, length, ctx)
                        ctx.label('path')
                        ctx.nt(len(path) >= 2)
            else:
                pairs, dists, ids = prm.query_all_graph_connections(a, b)
                if s_conn is not None and g_conn is not None:
                    ids = np.asarray(ids).reshape(-1, 2)
                    have = {}
                    require(len(pairs) == len(dists) == len(ids), 'the reported arrays differ in length')
                    for (i, j), pq, d in zip(ids, pairs, dists):
                        i, j = int(i), int(j)
                        require((i, j) not in have, 'connection %s reported twice', [i, j])
                        require(0 <= i < m.n and 0 <= j < m.n, 'connection %s of unknown samples', [i, j])
                        require(np.array_equal(pq[0], m.pts[i]) and np.array_equal(pq[1], m.pts[j]),
                                'the points of connection %s are not its samples', [i, j])
                        have[i, j] = float(d)
                    require(set(have) == {(i, j) for i in s_conn for j in g_conn},
                            'reported connections %s, expected starts %s, goals %s', sorted(have), sorted(s_conn),
                            sorted(g_conn))
                    for i in s_conn:
                        from_i = roads.distances_from(m.n, edges, i)
                        for j in g_conn:
                            want = from_i[j]
                            d = have[i, j]
                            if math.isinf(want):
                                require(roads.infinite(d), 'roadmap distance %r between the disconnected %s', d, [i, j])
                            else:
                                require(abs(d - want) <= m.prec * (1 + want), 'roadmap distance %r between %s, expected '
                                        '%r', d, [i, j], want)
                                ctx.nt(i != j)
                    ctx.label('all connections')
            require(np.array_equal(np.ravel(a), s) and np.array_equal(np.ravel(b), g), 'the query changed its ends')
            require(prm.num_vertices() == n_ids, 'the query left %d vertices of %d', prm.num_vertices(), n_ids)
            if i_step < 8 or i_step % 16 == 0:
                m.edges()
            require(np.array_equal(m.pts, prm.prm_samples), 'the query changed the samples')
    finally:
        prm.reset()


@st.composite
def large(draw):
    c = draw(cases())
    f = draw(st.sampled_from([4, 6]))
    c['n'] *= f
    if 'k' in c:
        c['k'] += draw(st.sampled_from([0, 10]))
    if 'radius' in c:
        c['radius'] /= draw(st.sampled_from([1.0, 2.5, 5.0]))
    c['rule'] = draw(st.sampled_from([['all'], ['hash', 0.7], ['hash', 0.3], ['wall', 0.2]]))
    return c


@st.composite
def many(draw):
    c = draw(cases())
    c['many'] = [draw(gen.seeds()), draw(st.sampled_from([30, 70, 140, 300]))]
    return c


@st.composite
def huge(draw):
    """Long paths of many samples, ends that connect to very many samples."""
    c = draw(cases())
    c['n'] = draw(st.integers(257, 330))
    c['dim'] = draw(st.sampled_from([1, 1, 2]))
    c['flat'] = False
    c['lattice'] = 0
    c['rule'] = draw(st.sampled_from([['all'], ['all'], ['hash', 0.8]]))
    if 'k' in c:
        c['k'] = draw(st.sampled_from([14, 14, 24, 120]))
    else:
        c['radius'] = draw(st.sampled_from([0.03, 0.05, 0.3])) * (1 if c['dim'] == 1 else 2)
    c['exp_mode'] = c['kind'] != 'full' and draw(st.integers(0, 2)) > 0
    ends = [['path', draw(gen.unit()) * 0.1], ['path', 1 - draw(gen.unit()) * 0.1], ['path', draw(gen.unit())]]
    what = ['all', 'best'] if c['exp_mode'] else ['best']
    c['steps'] = [[draw(st.sampled_from(what)), ends[0], ends[1], 'vector'], ['best', ends[2], ends[1], 'vector']]
    return c


SUBS = [Sub('long paths', huge(), run, quick=32, thorough=400),
        Sub('queries', cases(), run, quick=6000, thorough=60000),
        Sub('queries of large roadmaps', large(), run, quick=80, thorough=2000),
        Sub('very many queries', many(), run, quick=160, thorough=3000)]
