# PY: venv
# STUBS: core
"""P05: volume, reference curve, distance to it; motions in the straight-line world."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen
from nonasymptotic.envs import StraightLine, NarrowPassage

ID = 'P05'
DIMS = st.sampled_from([2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 12, 16, 33])


@st.composite
def worlds(draw):
    w = {'env': draw(st.sampled_from(['line', 'narrow'])), 'dim': draw(DIMS)}
    if w['env'] == 'line':
        w['delta'] = draw(st.one_of(st.sampled_from([0.5, 0.1, 1.0]), gen.in_range(0.001, 3.0)))
        w['length'] = draw(st.one_of(st.none(), st.sampled_from([1.0, 2.0]), gen.in_range(0.05, 10.0)))
    else:
        w['clearance'] = draw(gen.in_range(0.0, 0.5))
    return w


def make(w):
    if w['env'] == 'narrow':
        return NarrowPassage(w['dim'], w['clearance'], 1), -0.5, 0.5
    if w['length'] is None:
        return StraightLine(w['dim'], w['delta'], seed=1), 0.0, 1.0
    return StraightLine(w['dim'], w['delta'], length=w['length'], seed=1), 0.0, w['length']


@st.composite
def cases(draw):
    w = draw(worlds())
    lo, hi = make(w)[1:]
    ts = draw(st.lists(st.one_of(gen.unit(), st.sampled_from([0.0, 1.0, -1e-9, -2.0, 1.5, 7.0, 0.5])), min_size=1,
                       max_size=4))
    pts = []
    for _ in range(draw(st.integers(0, 5))):
        where = draw(st.sampled_from(['along', 'along', 'before', 'after', 'on', 'end']))
        u = draw(gen.unit())
        x = {'along': lo + (hi - lo) * u, 'before': lo - 3 * u, 'after': hi + 3 * u, 'on': lo + (hi - lo) * u,
             'end': draw(st.sampled_from([lo, hi]))}[where]
        ys = [0.0 if where == 'on' else draw(st.one_of(st.just(0.0), gen.in_range(-2.0, 2.0)))
              for _ in range(w['dim'] - 1)]
        pts.append([x] + ys)
    return {'world': w, 'ts': ts, 'points': pts}


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def run(case, ctx):
    w = case['world']
    env, lo, hi = make(w)
    dim = w['dim']
    want = (2 + (2 * w['clearance']) ** (dim - 1)) if w['env'] == 'narrow' else \
        (hi + 2 * w['delta']) * (2 * w['delta']) ** (dim - 1)
    got = float(env.volume)
    require(abs(got - want) <= 1e-9 * want, 'volume is %r, reported %r', want, got)
    for t in case['ts']:
        p = np.asarray(env.arclength_to_curve_point(t))
        require(p.shape == (dim,), 'curve point of shape %s in dimension %d', p.shape, dim)
        s = lo + (hi - lo) * min(max(t, 0.0), 1.0)
        require(close(p[0], s) and not p[1:].any(), 'curve at %r is %s, expected first coordinate %r', t, p.tolist(), s)
    pts = np.array(case['points'], float).reshape(-1, dim)
    keep = pts.copy()
    d = np.asarray(env.distance_to_path(pts))
    require(np.array_equal(pts, keep), 'the distance computation changed its argument')
    require(d.shape == (len(pts),), '%d points got distances of shape %s', len(pts), d.shape)
    for p, di in zip(case['points'], d):
        off = max(lo - p[0], p[0] - hi, 0.0)
        want = math.sqrt(off ** 2 + math.fsum(y * y for y in p[1:]))
        require(close(want, di), 'distance of %s to the path is %r, reported %r', p, want, float(di))
        ctx.nt(want > 1e-9)
        ctx.label('beyond an end' if off > 0 else 'beside the path')


@st.composite
def line_motions(draw):
    dim = draw(DIMS)
    delta = draw(st.one_of(st.sampled_from([0.5, 0.1]), gen.in_range(0.001, 2.0)))
    length = draw(st.one_of(st.just(1.0), gen.in_range(0.05, 5.0)))
    ends = []
    for _ in range(2 * draw(st.integers(0, 4))):
        p = [-delta + (length + 2 * delta) * draw(gen.unit())] + [delta * (2 * draw(gen.unit()) - 1)
                                                                  for _ in range(dim - 1)]
        if draw(st.booleans()):
            i = draw(st.integers(0, dim - 1))
            hi = (length if i == 0 else 0.0) + delta
            p[i] = draw(st.sampled_from([-delta - 1e-6, hi + 1e-6, hi - 1e-6, -delta + 1e-6, hi + 1.0, -hi - 1.0]))
        ends.append(p)
    return {'dim': dim, 'delta': delta, 'length': length, 'starts': ends[::2], 'goals': ends[1::2]}


def run_line(case, ctx):
    dim, delta, length = case['dim'], case['delta'], case['length']
    env = StraightLine(dim, delta, length=length, seed=0)

    def ok(p):
        return -delta <= p[0] <= length + delta and all(abs(y) <= delta for y in p[1:])
    a = np.array(case['starts'], float).reshape(-1, dim)
    b = np.array(case['goals'], float).reshape(-1, dim)
    want = [ok(p) and ok(q) for p, q in zip(case['starts'], case['goals'])]
    got = np.asarray(env.is_motion_valid(a, b))
    require(got.shape == (len(a),) and [bool(x) for x in got] == want, 'motions %s -> %s: verdicts %s, expected %s',
            case['starts'], case['goals'], got.tolist(), want)
    for p, q, v in zip(a, b, want):
        require(bool(env.is_motion_valid(p, q)) == v, 'motion %s -> %s judged alone: expected %s', p.tolist(), q.tolist(), v)
    ctx.nt(len(set(want)) > 1)


@st.composite
def crowds(draw):
    return {'world': draw(worlds()), 'seed': draw(gen.seeds()), 'n': draw(st.integers(6, 3000)),
            'delta': draw(gen.in_range(0.05, 1.0))}


def run_crowd(case, ctx):
    """Large batches of points and motions, as a roadmap of many samples asks for them; one world, asked twice."""
    w, n = case['world'], case['n']
    env, lo, hi = make(w)
    rng = np.random.default_rng(case['seed'])
    for _ in range(2):
        pts = rng.uniform(-1, 1, (n, w['dim']))
        pts[:, 0] = lo + (hi - lo) * rng.uniform(-1, 2, n)
        if w['env'] == 'line':
            pts *= rng.choice([0.0, 0.2, 1.0, 1.0], (n, w['dim']))
        d = np.asarray(env.distance_to_path(pts))
        require(d.shape == (n,), '%d points got distances of shape %s', n, d.shape)
        off = np.maximum(0, np.maximum(lo - pts[:, 0], pts[:, 0] - hi))
        want = np.sqrt(off ** 2 + (pts[:, 1:] ** 2).sum(axis=1))
        bad = np.where(np.abs(d - want) > 1e-9 * np.maximum(1, want))[0]
        require(not len(bad), 'distance of point %s of %d to the path is %r, reported %r', bad[:1].tolist(), n,
                float(want[bad[0]]) if len(bad) else 0, float(d[bad[0]]) if len(bad) else 0)
        if w['env'] == 'line':
            delta = w['delta']
            a, b = (lo + rng.uniform(-1.1, 1.1, (2, n, w['dim'])) * delta)
            a[:, 0], b[:, 0] = (np.where(x < 0.5, lo - delta * 1.05, lo) + (hi - lo + delta * 1.05) * x
                                for x in rng.uniform(0, 1, (2, n)))
            inside = [np.all(x >= -delta, axis=1) & np.all(x[:, 1:] <= delta, axis=1) & (x[:, 0] <= hi + delta)
                      for x in (a, b)]
            got = np.asarray(env.is_motion_valid(a, b))
            require(got.shape == (n,), '%d motions got verdicts of shape %s', n, got.shape)
            bad = np.where(got.astype(bool) != (inside[0] & inside[1]))[0]
            require(not len(bad), 'motion %s of %d is judged %s', bad[:1].tolist(), n,
                    bool(got[bad[0]]) if len(bad) else None)
    ctx.nt(n > 100)


SUBS = [Sub('reference', cases(), run, quick=8000, thorough=120000),
        Sub('line_motions', line_motions(), run_line, quick=4000, thorough=60000),
        Sub('large batches', crowds(), run_crowd, quick=1600, thorough=25000)]
