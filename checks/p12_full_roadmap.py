# PY: venv
# STUBS: core
"""P12: the full-connection roadmap joins exactly the close, valid pairs."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, roads

ID = 'P12'


@st.composite
def cases(draw):
    w = draw(roads.world())
    ops = [['grow', draw(st.integers(1, 24))]]
    n = ops[0][1]
    for _ in range(draw(st.integers(0, 3))):
        if draw(st.booleans()):
            n = n + draw(st.integers(0, 12))
            ops.append(['grow', n])
        else:
            ops.append(['radius', draw(st.one_of(radius(), roads.near_a_distance()))])
    return dict(w, radius=draw(radius()), ops=ops)


def radius():
    # halves and quarters coincide with lattice distances; others do not
    return st.one_of(gen.in_range(0.0, 1.6), st.sampled_from([0.0, 0.25, 0.5, 1.0, 2.0, 5.0]))


def judge(prm, w, r, n, ctx):
    pts = np.array(prm.prm_samples, dtype=float)
    require(pts.shape == (n, w.dim), 'samples have shape %s, %d were asked for in dimension %d', pts.shape, n, w.dim)
    dist = roads.pairs_dist(pts)
    valid = roads.valid_matrix(w, pts)
    want, unsure = roads.within(dist, valid, r, 1e-9)
    roads.compare(prm, n, want, unsure, dist, 1e-9, 'radius %r, %d samples' % (r, n))
    close_invalid = any(dist[i, j] < r and not valid[i, j] for i in range(n) for j in range(i))
    far_valid = any(dist[i, j] > r and valid[i, j] for i in range(n) for j in range(i))
    ctx.nt(close_invalid and far_valid)
    return dist, want, unsure


def away(xs, ys):
    """Which of xs are none of ys."""
    ys = np.sort(ys)
    if not len(ys):
        return np.ones(len(xs), dtype=bool)
    at = np.searchsorted(ys, xs)
    return np.minimum(np.abs(ys[np.minimum(at, len(ys) - 1)] - xs), np.abs(ys[np.maximum(at - 1, 0)] - xs)) > 1e-9


def run(case, ctx):
    _, P = roads.modules('pynndescent')
    w = roads.World(case)
    r = case['radius'] * w.scale
    prm = P.SimpleFullConnRadiusPRM(r, w.check_motion, w.sample)
    try:
        n, before = 0, None
        for op, arg in case['ops']:
            if op == 'grow':
                before = None if prm.prm_samples is None else np.array(prm.prm_samples)
                got = prm.grow_to_n_samples(arg)
                n = arg
                dist, want, unsure = judge(prm, w, r, n, ctx)
                if before is not None:
                    require(np.array_equal(before, prm.prm_samples[:len(before)]), 'growing changed earlier samples')
                if got is not None:
                    d = np.asarray(got, dtype=float).ravel()
                    off = away(d, np.array([0.0] + [dist[e] for e in want | unsure]))
                    require(not off.any(), 'reported connection distance %r is not that of a valid close pair',
                            float(d[off][0]) if off.any() else None)
                    asked = sorted(want)
                    off = away(np.array([dist[e] for e in asked]), d)
                    require(not off.any(), 'the distance of the valid pair %s is not reported',
                            list(asked[int(np.argmax(off))]) if asked else None)
            else:
                before = np.array(prm.prm_samples)
                r = roads.resolve_radius(arg, before, w.scale)
                prm.set_connection_radius(r)
                require(np.array_equal(before, prm.prm_samples), 'changing the radius changed the samples')
                judge(prm, w, r, n, ctx)
                ctx.label('radius changed')
        roads.samples_follow(w, 0, prm.prm_samples)
    finally:
        prm.reset()


@st.composite
def large(draw):
    c = draw(cases())
    f = draw(st.sampled_from([4, 6]))
    c['ops'] = [[op[0], op[1] * f] if op[0] == 'grow' else op for op in c['ops']]
    c['rule'] = draw(st.sampled_from([['all'], ['hash', 0.7], ['wall', 0.2]]))
    c['radius'] = c['radius'] / draw(st.sampled_from([1, 3, 6]))
    return c


@st.composite
def huge(draw):
    c = draw(cases())
    n = draw(st.one_of(st.integers(257, 330), st.integers(257, 330), st.integers(513, 600)))
    c['dim'] = draw(st.integers(1, 3))
    c['rule'] = draw(st.sampled_from([['all'], ['hash', 0.7], ['wall', 0.2]]))
    c['radius'] = draw(st.sampled_from([0.005, 0.03, 0.1, 0.3, 2.0] if n < 400 else [0.005, 0.03]))
    c['ops'] = [['grow', n]] + [['radius', c['radius'] * draw(st.sampled_from([0.3, 0.9, 1.2]))],
                                ['grow', n + draw(st.integers(1, 40))]][:draw(st.integers(0, 2))]
    return c


SUBS = [Sub('huge roadmap', huge(), run, quick=24, thorough=400),
        Sub('roadmap', cases(), run, quick=8000, thorough=60000),
        Sub('large roadmap', large(), run, quick=80, thorough=2000)]
