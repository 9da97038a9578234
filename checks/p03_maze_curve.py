# PY: venv
# STUBS: core
"""P03: the maze's solution curve against a polyline built from the path's cells."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, geo
from nonasymptotic.envs import GrayCodeWalls

ID = 'P03'
SIZES = [(2, 1), (2, 2), (2, 3), (2, 5), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (5, 1), (5, 2),
         (2, 9), (2, 14), (3, 6), (4, 4), (6, 1), (7, 1)]


@st.composite
def cases(draw, sizes=SIZES):
    dim, length = draw(st.sampled_from(sizes))
    th = draw(st.one_of(st.just(0.0), gen.in_range(0.0, 0.49)))
    legs = 2 * length * 2 ** (dim - 1) - 2
    ts = []
    for _ in range(draw(st.one_of(st.integers(1, 8), st.integers(8, 40)))):
        kind = draw(st.sampled_from(['leg', 'leg', 'leg', 'any', 'boundary', 'last', 'first', 'out']))
        u = draw(gen.unit())
        if kind == 'leg':
            t = (draw(st.integers(0, legs - 1)) + u) / legs
        elif kind == 'any':
            t = u
        elif kind == 'boundary':
            t = draw(st.integers(0, legs)) / legs + draw(st.sampled_from([0.0, 1e-12, -1e-12, 1e-6, -1e-6]))
        elif kind == 'last':
            t = (legs - 1 + u) / legs
        elif kind == 'first':
            t = u / legs
        else:
            t = draw(st.sampled_from([-1e-9, -0.5, -3.0, 1.0 + 1e-9, 1.7, 40.0, 0.0, 1.0]))
        ts.append(t)
    return {'dim': dim, 'length': length, 'thickness': th, 'ts': ts}


def run(case, ctx):
    dim, length, th = case['dim'], case['length'], case['thickness']
    path = geo.maze_path(dim, length)
    env = GrayCodeWalls(dim, length, th)
    centres = [np.array(c) + 0.5 for c in path]
    total = len(path) - 1.0
    require(abs(float(env.get_curve_arclength()) - total) < 1e-9, 'curve length is %r, reported %r', total,
            env.get_curve_arclength())
    require(np.allclose(env.start_point(), centres[0]) and np.allclose(env.end_point(), centres[-1]),
            'start or end point is not the centre of the first or last cell')
    kept = []
    for t in case['ts']:
        s = min(max(t, 0.0), 1.0) * total
        k = min(int(math.floor(s)), len(path) - 2)
        want = centres[k] + (s - k) * (centres[k + 1] - centres[k])
        got = np.asarray(env.arclength_to_curve_point(t))
        require(got.shape == (dim,), 'curve point of shape %s', got.shape)
        require(np.max(np.abs(got - want)) < 1e-9, 'curve at %r is %s, expected %s', t, got.tolist(), want.tolist())
        # the curve keeps half a cell from every closed wall of the cell it is in
        f = s - math.floor(s)
        if abs(f - 0.5) > 1e-6:
            d = float(env.distance_to_wall(got))
            require(abs(d - (0.5 - th)) < 1e-9, 'curve at %r is %r away from the walls, expected %r', t, d, 0.5 - th)
        kept.append((t, got, got.copy()))
        ctx.nt(0.5 < s < total)
    for t, got, was in kept:
        require(np.array_equal(got, was), 'the point the curve gave at %r was changed by later calls', t)
        require(np.allclose(env.arclength_to_curve_point(t), was, atol=1e-9), 'the curve at %r is another point when '
                'asked again', t)
        got += 1.0      # the caller's own array
    for t, got, was in kept:
        require(np.allclose(env.arclength_to_curve_point(t), was, atol=1e-9), 'the curve at %r is another point after '
                'the caller changed the array it got', t)
    require(np.allclose(env.start_point(), centres[0]) and np.allclose(env.end_point(), centres[-1]),
            'start or end point moved')


SUBS = [Sub('curve', cases(), run, quick=8000, thorough=150000),
        Sub('long curves', cases([(2, 80), (2, 400), (3, 90), (5, 20), (8, 3), (9, 1), (10, 2), (11, 1)]), run, quick=240,
            thorough=4000)]
