# PY: venv
# STUBS: core
"""P15: any history of operations leaves the roadmap of the current samples and settings."""
import contextlib
import io
import os
import shutil
import tempfile

import networkit as nk
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, Violation, require
from vlib import gen, roads

ID = 'P15'


SAVED = ['saved0', 'road_0.5', 'two words', 'k=8', 'v1.2.3']     # what a caller may name a saved roadmap


@st.composite
def cases(draw):
    w = draw(roads.world(distinct=True, max_dim=4))
    kind = draw(st.sampled_from(['full', 'knn', 'knn', 'radius']))
    c = dict(w, kind=kind, flavour=draw(st.sampled_from(roads.FLAVOURS)), exp_mode=kind != 'full' and draw(st.booleans()))
    knobs = ['radius']
    if kind == 'knn':
        c['k'] = draw(st.integers(2, 9))
        c['truncate'] = draw(st.booleans())
        knobs = draw(st.sampled_from([['k'], ['radius'], ['k', 'radius']]))
    else:
        c['radius'] = draw(st.one_of(gen.in_range(0.1, 1.3), gen.in_range(0.1, 1.3), st.just(9.0)))
    ops, n, last = [], 0, 5
    line = st.builds(lambda x: [x] + [0.0] * (w['dim'] - 1), gen.unit())
    ends = [draw(line) for _ in range(3)]      # few ends, so that queries repeat under other settings
    for _ in range(draw(st.integers(2, 9))):
        what = draw(st.sampled_from(['grow', 'grow', 'set', 'set', 'query', 'query', 'save', 'shrink', 'reset', 'over']))
        if n == 0 and what not in ('save', 'reset'):
            what = 'grow'
        if what == 'grow':
            again = ops[-1:] == [['reset']] and draw(st.booleans())     # as large as before the reset
            n = last if again else n + draw(st.integers(3, 12))
            last = n
            ops.append(['grow', n])
        elif what == 'shrink':
            ops.append(['shrink', draw(st.integers(1, n - 1))])
        elif what == 'reset':
            n = 0
            ops.append(['reset'])
        elif what == 'query':
            ops.append(['query', draw(st.sampled_from(ends)), draw(st.sampled_from(ends)),
                        draw(st.sampled_from(['best', 'best', 'all']))])
        elif what == 'save':
            ops.append(['save', draw(st.integers(0, len(SAVED) - 1))])
            if n and draw(st.integers(0, 2)) == 0:      # the same file again, after starting over
                ops += [['reset'], ['grow', last], ['save', ops[-1][1]]]
                n = last
        elif what == 'over':
            if kind == 'knn':
                ops.append(['over', c['k'] + draw(st.integers(1, 3))])
        elif kind != 'radius':
            if kind == 'knn' and draw(st.sampled_from(knobs)) == 'k':
                ops.append(['k', draw(st.integers(2, c['k']))])
            else:
                ops.append(['radius', draw(st.one_of(gen.in_range(0.1, 1.3), gen.in_range(0.1, 1.3), st.just(0.0)))])
    c['ops'] = ops
    return c


def build(case, w, P):
    if case['kind'] == 'full':
        return P.SimpleFullConnRadiusPRM(case['radius'] * w.scale, w.check_motion, w.sample)
    if case['kind'] == 'radius':
        return P.SimpleRadiusPRM(case['radius'] * w.scale, w.check_motion, w.sample, w.dist_to_path)
    return P.SimpleNearestNeighborRadiusPRM(case['k'], w.check_motion, w.sample, w.dist_to_path,
                                            truncate_to_eff_rad=case['truncate'])


class State:
    def __init__(self, case, w, prm):
        self.case, self.w, self.prm = case, w, prm
        self.rel = roads.tol(case['flavour']) if case['kind'] != 'full' else 1e-9
        self.n, self.pts = 0, None
        self.r = case['radius'] * w.scale if 'radius' in case else None
        self.k = self.k_grown = case.get('k')
        self.mark = 0

    def grown(self, n):
        prm = self.prm
        pts = np.array(prm.prm_samples, dtype=float)
        require(pts.shape == (n, self.w.dim), 'after growing to %d, the samples have shape %s', n, pts.shape)
        old = 0
        if self.pts is not None:
            old = len(self.pts)
            require(np.array_equal(pts[:old], self.pts), 'growing changed earlier samples')
        self.mark = roads.samples_follow(self.w, self.mark, pts[old:])
        self.n, self.pts = n, pts
        self.dist, self.valid = roads.pairs_dist(pts), roads.valid_matrix(self.w, pts)
        if self.case['kind'] == 'knn':
            self.k_grown = self.k
            self.r = float(prm.certified_max_conn_r) if self.case['truncate'] else None

    def check(self, what):
        prm = self.prm
        if self.n == 0:
            require(prm.num_vertices() == 0 and prm.num_edges() == 0, '%s: an empty roadmap has %d vertices, %d edges',
                    what, prm.num_vertices(), prm.num_edges())
            return
        require(np.array_equal(prm.prm_samples, self.pts), '%s changed the samples', what)
        if self.case['kind'] == 'knn':
            sf = self.case['flavour'] == 'pynndescent'
            sure, unsure = roads.neighbour_pairs(self.dist, min(self.k, self.n - 1), sf)
            s2, u2 = roads.neighbour_pairs(self.dist, min(self.k, self.n), sf)
            unsure = (unsure | s2 | u2) - sure
            want = {e for e in sure if self.valid[e]}
            unsure = {e for e in unsure if self.valid[e]}
            if self.r is not None:
                edge = {e for e in want | unsure if abs(self.dist[e] - self.r) <= 2 * self.rel * (1 + self.r)}
                unsure = {e for e in unsure if self.dist[e] < self.r} | edge
                want = {e for e in want if self.dist[e] < self.r} - edge
        else:
            want, unsure = roads.within(self.dist, self.valid, self.r, self.rel)
        self.edges = roads.compare(prm, self.n, want, unsure, self.dist, 2 * self.rel, 'after ' + what)

    def length(self, a, b):
        """Length of the shortest path from a to b, None where rounding decides."""
        r = self.r if self.r is not None else float(self.prm.certified_max_conn_r)
        ends = [roads.connections(self.w, self.pts, q, r, self.rel) for q in (a, b)]
        if None in ends:
            return None
        return roads.shortest(self.n, {e: float(self.dist[e]) for e in self.edges}, *ends)


def raises(f, what):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            f()
    except Exception:
        return
    raise Violation('%s was not refused' % what)


def run(case, ctx):
    _, P = roads.modules(case['flavour'])
    w = roads.World(case)
    files0 = len(roads.written(case['flavour']))
    tmp = tempfile.mkdtemp(prefix='p15_')
    prm = build(case, w, P)
    prm.in_mp_exp_mode = case['exp_mode']
    s = State(case, w, prm)
    done = set()

    def leftovers():
        every = roads.written(case['flavour'])
        # flavours write separate lists; whatever this process wrote and still exists outside the scratch folder
        return [p for p in every if os.path.exists(p) and not p.startswith(tmp + os.sep)]

    try:
        for op in case['ops']:
            what = ' '.join(map(str, op))
            if op[0] == 'grow':
                with contextlib.redirect_stdout(io.StringIO()):
                    prm.grow_to_n_samples(op[1])
                s.grown(op[1])
            elif op[0] == 'shrink':
                raises(lambda: prm.grow_to_n_samples(op[1]), 'shrinking from %d to %d samples' % (s.n, op[1]))
            elif op[0] == 'over':
                raises(lambda: prm.set_nearest_neighbors(op[1]), 'raising k above %d' % case['k'])
            elif op[0] == 'k':
                if op[1] > s.k_grown:
                    continue
                prm.set_nearest_neighbors(op[1])
                s.k = op[1]
            elif op[0] == 'radius':
                new = op[1] * (float(prm.certified_max_conn_r) if case['kind'] == 'knn' else w.scale)
                with contextlib.redirect_stdout(io.StringIO()):
                    prm.set_connection_radius(new)
                s.r = new
            elif op[0] == 'query':
                a, b = w.place(np.array(op[1])), w.place(np.array(op[2]))
                if op[3] == 'all' and case['exp_mode']:
                    one = prm.query_all_graph_connections(a, b)
                    two = prm.query_all_graph_connections(a, b)
                    require(all(np.array_equal(x, y) for x, y in zip(one, two)), 'the same query has two answers')
                else:
                    one = prm.query_best_solution(a, b)
                    two = prm.query_best_solution(a, b)
                    require(abs(one[0] - two[0]) <= 1e-9 * (1 + abs(one[0])) or
                            (roads.infinite(one[0]) and roads.infinite(two[0])),
                            'the same query has lengths %r and %r', one[0], two[0])
                    want = s.length(a, b)
                    if want is not None:
                        require(roads.infinite(one[0]) if np.isinf(want) else abs(one[0] - want) <= 1e-5 * (1 + want),
                                'the query reports length %r, the shortest path has %r', float(one[0]), want)
                        ctx.label('unreachable' if np.isinf(want) else 'reachable')
            elif op[0] == 'save':
                path = os.path.join(tmp, SAVED[op[1]])
                if s.n == 0:
                    raises(lambda: prm.save(path), 'saving an empty roadmap')
                else:
                    prm.save(path)
                    for f in (path + '.nkb', path + '.npy'):
                        require(os.path.isfile(f), 'saving to %s leaves no %s, but %s', os.path.basename(path),
                                os.path.basename(f), sorted(os.listdir(tmp)))
                    g = nk.readGraph(path + '.nkb', nk.Format.NetworkitBinary)
                    require(roads.graph_edges(g, s.n) == roads.graph_edges(prm.prm_graph, s.n),
                            'the saved roadmap differs from the current one')
                    require(np.array_equal(np.load(path + '.npy'), s.pts), 'the saved samples differ')
            elif op[0] == 'reset':
                prm.reset()
                left = leftovers()
                require(not left, 'reset leaves the temporary file %s', left[:1])
                s.n, s.pts, s.mark = 0, None, len(w.drawn)
                if case['kind'] == 'knn':
                    s.k = prm.k_neighbors      # whether resetting also restores k is unspecified
                else:
                    s.r = prm.conn_r
            s.check(what)
            done.add(op[0])
        ctx.label(case['kind'])
        ctx.nt('grow' in done and len(done & {'reset', 'query', 'save', 'shrink', 'k', 'radius'}) >= 2)
    finally:
        prm.reset()
        for p in roads.written(case['flavour'])[files0:]:
            if os.path.exists(p) and 'temp' in p.split(os.sep):
                os.remove(p)
        shutil.rmtree(tmp, ignore_errors=True)


@st.composite
def large(draw):
    c = draw(cases())
    f = draw(st.sampled_from([4, 6]))
    c['ops'] = [[op[0], op[1] * f] if op[0] in ('grow', 'shrink') else op for op in c['ops']]
    while len([op for op in c['ops'] if op[0] == 'grow']) > 3:
        c['ops'].pop()
    c['rule'] = draw(st.sampled_from([['all'], ['hash', 0.6], ['wall', 0.2]]))
    if 'radius' in c:
        c['radius'] /= draw(st.sampled_from([1, 2, 4]))
    return c


SUBS = [Sub('history', cases(), run, quick=8000, thorough=80000),
        Sub('history of large roadmaps', large(), run, quick=400, thorough=6000)]
