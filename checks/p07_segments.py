# PY: venv
# STUBS: core
"""P07: planar segment intersection against exact rational arithmetic."""
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen
from nonasymptotic.util import detect_intersect

ID = 'P07'


def orient(p, q, r):
    v = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    return (v > 0) - (v < 0)


def on(p, q, r):
    return orient(p, q, r) == 0 and min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) and \
        min(p[1], q[1]) <= r[1] <= max(p[1], q[1])


def meet(s):
    """(do they share a point, is it a special case), exactly."""
    a, b, c, d = [tuple(F(v) for v in p) for p in s]
    o = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b))
    touch = on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b)
    proper = o[0] * o[1] < 0 and o[2] * o[3] < 0
    cross = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
    return proper or touch, (not proper and touch) or cross == 0


def pt_seg(p, a, b):
    ax, ay, bx, by = a[0], a[1], b[0], b[1]
    dx, dy = bx - ax, by - ay
    L = dx * dx + dy * dy
    t = 0 if L == 0 else max(0, min(1, ((p[0] - ax) * dx + (p[1] - ay) * dy) / L))
    return ((p[0] - ax - t * dx) ** 2 + (p[1] - ay - t * dy) ** 2) ** 0.5


def robust(s):
    """Is the answer unaffected by perturbing the coordinates a little?"""
    a, b, c, d = s
    return min(pt_seg(c, a, b), pt_seg(d, a, b), pt_seg(a, c, d), pt_seg(b, c, d)) > 1e-9


@st.composite
def lattice_pair(draw, size, den):
    n = st.integers(-size, size)
    p = lambda: [draw(n) / den, draw(n) / den]  # noqa: E731
    kind = draw(st.sampled_from(['any', 'any', 'touch', 'collinear', 'collinear', 'parallel', 'point', 'points']))
    a, b = p(), p()
    if kind == 'any':
        return [a, b, p(), p()]
    if kind == 'touch':
        return [a, b, draw(st.sampled_from([a, b])), p()]
    if kind == 'collinear':
        dx, dy = b[0] - a[0], b[1] - a[1]
        k1, k2 = draw(st.integers(-3, 3)), draw(st.integers(-3, 3))
        return [a, b, [a[0] + k1 * dx, a[1] + k1 * dy], [a[0] + k2 * dx, a[1] + k2 * dy]]
    if kind == 'parallel':
        dx, dy = b[0] - a[0], b[1] - a[1]
        c = p()
        k = draw(st.sampled_from([1, -1, 2, -2]))
        return [a, b, c, [c[0] + k * dx, c[1] + k * dy]]
    if kind == 'point':
        mid = [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2]
        q = draw(st.sampled_from([a, mid, p()]))
        return [a, b, q, list(q)]
    return [a, list(a), b, list(draw(st.sampled_from([a, b])))]


@st.composite
def float_pair(draw):
    r = gen.in_range(-2.0, 2.0)
    return [[draw(r), draw(r)] for _ in range(4)]


@st.composite
def near_pair(draw):
    """One end of the second segment is just beside, or just beyond an end of, the first."""
    size = draw(st.sampled_from([1.0, 1.0, 40.0]))
    a, b, c, _ = [[x * size for x in p] for p in draw(float_pair())]
    t = draw(st.one_of(gen.unit(), st.sampled_from([0.0, 1.0])))
    off = draw(st.sampled_from([1, -1])) * 10.0 ** -draw(gen.in_range(1.0, 8.7))
    ux, uy = b[0] - a[0], b[1] - a[1]
    L = max((ux * ux + uy * uy) ** 0.5, 1e-3)
    if draw(st.booleans()):
        d = [a[0] + t * ux - off * uy / L, a[1] + t * uy + off * ux / L]
    else:
        t = 1.0 if t > 0.5 else 0.0
        s = abs(off) if t else -abs(off)
        d = [a[0] + t * ux + s * ux / L, a[1] + t * uy + s * uy / L]
    s = [a, b, c, d]
    k = draw(st.integers(0, 3))
    if k & 1:
        s = s[2:] + s[:2]
    return s if k & 2 else [s[0], s[1], s[3], s[2]]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['lattice', 'lattice', 'lattice', 'float', 'near']))
    size, den = draw(st.sampled_from([(2, 1), (4, 1), (4, 2), (20, 8), (64, 4)]))
    one = {'lattice': lattice_pair(size, den), 'float': float_pair(), 'near': near_pair()}[kind]
    pairs = [draw(one) for _ in range(draw(st.integers(0, 6)))]
    shape = draw(st.sampled_from(['batch', 'batch', 'one_second', 'one_first']))
    if pairs and shape == 'one_second':
        pairs = [[s[0], s[1], pairs[0][2], pairs[0][3]] for s in pairs]
    elif pairs and shape == 'one_first':
        pairs = [[pairs[0][0], pairs[0][1], s[2], s[3]] for s in pairs]
    swap = draw(st.booleans())
    if swap:
        pairs = [[s[1], s[0], s[2], s[3]] for s in pairs]
    return {'kind': kind, 'shape': shape, 'pairs': pairs}


def run(case, ctx):
    pairs = case['pairs']
    arr = [np.array([s[i] for s in pairs], float).reshape(-1, 2) for i in range(4)]
    if case['shape'] == 'one_second' and pairs:
        arr[2], arr[3] = arr[2][:1], arr[3][:1]
    elif case['shape'] == 'one_first' and pairs:
        arr[0], arr[1] = arr[0][:1], arr[1][:1]
    got = np.asarray(detect_intersect(*arr))
    require(got.shape == (len(pairs),), '%d pairs got verdicts of shape %s', len(pairs), got.shape)
    sym = np.asarray(detect_intersect(arr[2], arr[3], arr[0], arr[1]))
    for i, s in enumerate(pairs[:2]):      # single points, not lists of one
        one = [np.array(p, float) for p in s]
        v = np.asarray(detect_intersect(*one))
        require(v.size == 1 and bool(v.ravel()[0]) == bool(got[i]), 'two single segments are judged %s, in a list %s',
                v.tolist(), bool(got[i]))
    if pairs and case['shape'] == 'one_second':
        v = np.asarray(detect_intersect(arr[0], arr[1], arr[2][0], arr[3][0]))
        require(np.array_equal(v, got), 'many segments and a single one are judged %s, it as a list %s', v.tolist(), got.tolist())
    elif pairs and case['shape'] == 'one_first':
        v = np.asarray(detect_intersect(arr[0][0], arr[1][0], arr[2], arr[3]))
        require(np.array_equal(v, got), 'a single segment and many are judged %s, it as a list %s', v.tolist(), got.tolist())
    for s, g, h in zip(pairs, got, sym):
        if case['kind'] != 'lattice' and not robust(s):
            continue
        want, special = meet(s)
        require(bool(g) == want, 'segments %s-%s and %s-%s %s share a point, reported %s', s[0], s[1], s[2], s[3],
                'do' if want else 'do not', bool(g))
        require(bool(h) == want, 'segments %s-%s and %s-%s judged differently when exchanged', *s)
        ctx.nt(special)
        ctx.label('%s, %s' % ('meet' if want else 'apart', 'special' if special else 'general'))


@st.composite
def crowds(draw):
    return {'seed': draw(gen.seeds()), 'n': draw(st.one_of(st.integers(7, 100), st.integers(100, 1200), st.integers(100, 1200),
                                                           st.integers(1200, 9000))),
            'grid': draw(st.sampled_from([2, 4, 16])), 'shape': draw(st.sampled_from(['batch', 'batch', 'one_second',
                                                                                      'one_first'])),
            'dtype': draw(st.sampled_from(['float', 'float', 'int', 'near']))}


def run_crowd(case, ctx):
    """Large batches on a small lattice (exact in floats), also of integers."""
    rng, n = np.random.default_rng(case['seed']), case['n']
    arr = [rng.integers(-case['grid'], case['grid'] + 1, (n, 2)) for _ in range(4)]
    if case['shape'] == 'one_second':
        arr[2], arr[3] = arr[2][:1], arr[3][:1]
    elif case['shape'] == 'one_first':
        arr[0], arr[1] = arr[0][:1], arr[1][:1]
    if case['dtype'] == 'float':
        arr = [x / 2.0 for x in arr]
    near = case['dtype'] == 'near'
    if near:        # one end of the second segment is just beside the first
        a, b, c = rng.uniform(-2, 2, (3, n, 2))
        t, off = rng.uniform(0, 1, (n, 1)), rng.choice([-1, 1], (n, 1)) * 10.0 ** -rng.uniform(1, 8.7, (n, 1))
        u = (b - a) / np.linalg.norm(b - a, axis=1, keepdims=True)
        arr = [a, b, c, a + t * (b - a) + off * u[:, ::-1] * [-1, 1]]
    keep = [x.copy() for x in arr]
    got = np.asarray(detect_intersect(*arr))
    require(got.shape == (n,), '%d pairs got verdicts of shape %s', n, got.shape)
    require(all(np.array_equal(x, y) for x, y in zip(arr, keep)), 'the intersection test changed its arguments')
    full = [np.broadcast_to(x, (n, 2)).tolist() for x in arr]
    seen = set()
    judged = range(n) if n <= 1200 else sorted(set(rng.integers(0, n, 300).tolist()) | set(range(n - 60, n)))
    for i in judged:
        s = [x[i] for x in full]
        if near and not robust(s):
            continue
        want, special = meet(s)
        require(bool(got[i]) == want, 'pair %d of %d, %s-%s and %s-%s %s share a point, reported %s', i, n, s[0], s[1],
                s[2], s[3], 'do' if want else 'do not', bool(got[i]))
        seen.add((want, special))
    ctx.nt(len(seen) > (1 if near else 2))


SUBS = [Sub('pairs', cases(), run, quick=12000, thorough=250000),
        Sub('large batches', crowds(), run_crowd, quick=1200, thorough=25000)]
