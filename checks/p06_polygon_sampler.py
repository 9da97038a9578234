# PY: venv
# STUBS: core
"""P06: uniform sampling from polygons with holes and nested parts."""
import math
import numpy as np
from hypothesis import strategies as st
from shapely.geometry import MultiPolygon, Polygon, box as rectangle
from vlib.core import Sub, require
from vlib import gen
from vlib.stats import likely
from nonasymptotic.sampler import random_point_in_mpolygon

ID = 'P06'


@st.composite
def ring(draw, cx, cy, r_in, r_out):
    """A star-shaped or rectangular ring within the annulus (so that nesting is by construction)."""
    kind = draw(st.sampled_from(['star', 'box', 'star']))
    if kind == 'box':
        # a rectangle around the inner circle and inside the outer one
        h = r_out / math.sqrt(2)
        w = r_in + (h - r_in) * draw(gen.unit()) if h > r_in else h
        v = r_in + (h - r_in) * draw(gen.unit()) if h > r_in else h
        pts = [(cx - w, cy - v), (cx + w, cy - v), (cx + w, cy + v), (cx - w, cy + v)]
    else:
        n = draw(st.integers(5, 9))
        off = draw(gen.unit())
        pts = []
        for i in range(n):
            a = 2 * math.pi * (i + off) / n
            lo = r_in / math.cos(math.pi / n)      # edges then stay outside the inner circle
            r = lo + (r_out - lo) * draw(gen.unit()) if r_out > lo else r_out
            pts.append((cx + r * math.cos(a), cy + r * math.sin(a)))
    if draw(st.booleans()):
        pts.reverse()
    k = draw(st.integers(0, len(pts) - 1))
    return [list(p) for p in pts[k:] + pts[:k]]


@st.composite
def part(draw, cx, cy, r, depth, out):
    """A polygon with centre (cx, cy) within radius r; appends it and the islands in its holes to out."""
    ext = draw(ring(cx, cy, 0.62 * r, r))
    holes = []
    out.append([ext, holes])
    core = 0.6 * r
    kind = draw(st.sampled_from(['none', 'one', 'one', 'many'])) if depth else draw(st.sampled_from(['none', 'one']))
    if kind == 'one':
        hr = core * draw(st.sampled_from([0.5, 0.8, 0.98]))
        holes.append(draw(ring(cx, cy, 0.6 * hr, hr)))
        if depth and draw(st.booleans()):
            if draw(st.booleans()):
                draw(part(cx, cy, 0.58 * hr, depth - 1, out))
            else:
                for s in (-1, 1):
                    draw(part(cx + s * 0.3 * hr, cy, 0.25 * hr, 0, out))
    elif kind == 'many':
        for dx, dy in ((-1, -1), (1, -1), (0, 1)):
            if draw(st.booleans()):
                hr = 0.24 * core * draw(st.sampled_from([0.5, 1.0]))
                hx, hy = cx + dx * 0.45 * core, cy + dy * 0.45 * core
                holes.append(draw(ring(hx, hy, 0.6 * hr, hr)))
                if depth and draw(st.integers(0, 3)) == 0:
                    draw(part(hx, hy, 0.55 * hr, 0, out))


@st.composite
def regions(draw, n_points=300):
    parts = []
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    scale = draw(st.sampled_from([0.5, 1.0, 1.0, 8.0, 20.0]))
    ox, oy = draw(st.sampled_from([(0.0, 0.0), (3.0, -2.0), (-0.7, 0.4)]))
    for i in range(n):
        cx, cy = ox + 2.1 * scale * (i - (n - 1) / 2), oy + scale * (draw(gen.unit()) - 0.5)
        draw(part(cx, cy, scale * draw(st.sampled_from([1.0, 0.9, 0.4])), draw(st.integers(0, 2)), parts))
    order = draw(st.permutations(range(len(parts))))
    return {'parts': [parts[i] for i in order], 'seed': draw(gen.seeds()), 'as_multi': draw(st.booleans()),
            'n': n_points}


@st.composite
def sieves(draw):
    """Outlines of very many vertices; plates with many holes, and specks in them; many small parts; deep nesting."""
    unit = draw(st.sampled_from([0.5, 1.0, 4.0]))
    parts = []
    how = draw(st.sampled_from(['rings', 'grid', 'grid', 'dust', 'comb', 'cog']))
    if how == 'comb':       # thin teeth, of which there are many, on a thin back
        n, h = draw(st.integers(8, 60)), unit * draw(st.sampled_from([0.01, 0.02, 0.2, 1.0]))
        gap, fill = 2 * unit / n, draw(st.sampled_from([0.1, 0.5, 0.9]))
        back = draw(st.sampled_from([0.02, 0.3, 1.0])) * h
        out = [[-unit, 0.0], [unit, 0.0]]
        for i in range(n - 1, -1, -1):
            a, b = -unit + gap * (i + 0.5 * (1 - fill)), -unit + gap * (i + 0.5 * (1 + fill))
            out += [[b, back], [b, back + h], [a, back + h], [a, back]]
        out.insert(2, [unit, back])
        out.append([-unit, back])
        parts.append([out[::draw(st.sampled_from([1, -1]))], []])
    if how == 'cog':        # a round outline of many vertices, with or without teeth, and a hole of the same kind
        n = draw(st.integers(20, 120))
        deep, hole = draw(st.sampled_from([0.0, 0.005, 0.1, 0.6])), draw(st.sampled_from([0.0, 0.2, 0.95]))

        def cog(r):
            return [[r * (1 - deep * (i % 2)) * math.cos(math.pi * i / n), r * (1 - deep * (i % 2)) * math.sin(math.pi * i / n)]
                    for i in range(2 * n)]
        parts.append([cog(unit), [cog(hole * (1 - deep) * math.cos(math.pi / n) * unit)] if hole else []])
    if how == 'dust':       # one large part, and very many small ones
        h = unit * draw(st.sampled_from([0.005, 0.012, 0.05]))
        parts.append([[[-unit, -unit / 2], [0.0, -unit / 2], [0.0, unit / 2], [-unit, unit / 2]], []])
        for k in range(draw(st.integers(20, 60))):
            x, y = unit * (0.2 + 0.15 * (k % 8)), unit * (0.15 * (k // 8) - 0.5)
            parts.append([[[x - h, y - h], [x + h, y - h], [x + h, y + h], [x - h, y + h]], []])
    if how == 'rings':
        levels = draw(st.integers(3, 7))
        r, c = 6.0 * unit, [draw(st.sampled_from([0.0, 1.3])), 0.0]
        for _ in range(levels):
            outer, hole = draw(ring(c[0], c[1], 0.9 * r, r)), draw(ring(c[0], c[1], 0.75 * r, 0.85 * r))
            parts.append([outer, [hole]])
            r *= 0.7
        if draw(st.booleans()):
            parts.append([draw(ring(c[0], c[1], 0.5 * r, r)), []])
    if how == 'grid':
        nx, ny = draw(st.integers(1, 6)), draw(st.integers(2, 6))
        grid = [(i, j) for i in range(nx) for j in range(ny)]
        side = draw(st.sampled_from([0.02, 0.1, 0.45, 0.7]))    # of the grid's cells
        speck = draw(st.sampled_from([0.0, 0.05, 0.5, 0.9]))    # of the holes
        beside = draw(st.integers(0, 30)) if draw(st.booleans()) else 0

        def sq(x, y, h):
            return [[unit * (x - h), unit * (y - h)], [unit * (x + h), unit * (y - h)],
                    [unit * (x + h), unit * (y + h)], [unit * (x - h), unit * (y + h)]]
        mid = lambda i, j: (i + 0.5 - nx / 2, j + 0.5 - ny / 2)
        holes = [sq(*mid(i, j), side / 2) for i, j in grid]
        plate = [[-unit * nx / 2, -unit * ny / 2], [unit * nx / 2, -unit * ny / 2], [unit * nx / 2, unit * ny / 2],
                 [-unit * nx / 2, unit * ny / 2]]
        parts.append([plate, holes])
        if speck:
            parts += [[sq(*mid(i, j), side * speck / 2), []] for i, j in grid if (i + j) % draw(st.integers(1, 2)) == 0]
        for k in range(beside):
            parts.append([sq(nx / 2 + 0.3 + 0.2 * (k % 6), 0.2 * (k // 6), 0.03), []])
    order = draw(st.permutations(range(len(parts))))
    return {'parts': [parts[i] for i in order], 'seed': draw(gen.seeds()), 'as_multi': draw(st.booleans()), 'n': 1000}


def shoelace(r):
    return sum(r[i][0] * r[(i + 1) % len(r)][1] - r[(i + 1) % len(r)][0] * r[i][1] for i in range(len(r))) / 2


def clip(r, ax, c):
    """The part of the ring with coordinate ax <= c."""
    out = []
    for i in range(len(r)):
        p, q = r[i], r[(i + 1) % len(r)]
        if p[ax] <= c:
            out.append(p)
        if (p[ax] <= c) != (q[ax] <= c):
            t = (c - p[ax]) / (q[ax] - p[ax])
            out.append([p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])])
    return out


def area(parts, ax=None, c=None):
    tot = 0.0
    for ext, holes in parts:
        f = (lambda r: abs(shoelace(r))) if ax is None else (lambda r: abs(shoelace(clip(r, ax, c))))
        tot += f(ext) - sum(f(h) for h in holes)
    return tot


def winding(x, y, r):
    """(inside, distance to the ring) for arrays of points."""
    inside = np.zeros(len(x), bool)
    dist = np.full(len(x), np.inf)
    for i in range(len(r)):
        (x1, y1), (x2, y2) = r[i], r[(i + 1) % len(r)]
        cross = ((y1 > y) != (y2 > y))
        with np.errstate(all='ignore'):
            xi = x1 + (y - y1) * (x2 - x1) / (y2 - y1) if y1 != y2 else np.full(len(x), np.inf)
        inside ^= cross & (x < xi)
        dx, dy = x2 - x1, y2 - y1
        t = np.clip(((x - x1) * dx + (y - y1) * dy) / (dx * dx + dy * dy), 0, 1)
        dist = np.minimum(dist, np.hypot(x - x1 - t * dx, y - y1 - t * dy))
    return inside, dist


def build(case):
    polys = [Polygon(e, h) for e, h in case['parts']]
    return polys[0] if len(polys) == 1 and not case['as_multi'] else MultiPolygon(polys)


def judge(parts, pts, ctx):
    n = len(pts)
    x, y = np.array([p.x for p in pts]), np.array([p.y for p in pts])
    total = area(parts)
    hit = np.zeros(n, int)
    small, small_share, n_small = np.zeros(n, bool), 0.0, 0
    for ext, holes in parts:
        ins, d = winding(x, y, ext)
        ok = ins | (d < 1e-9)
        for h in holes:
            hin, hd = winding(x, y, h)
            ok &= ~hin | (hd < 1e-9)
        hit += ok
        cnt, share = int(ok.sum()), area([[ext, holes]]) / total
        require(likely(cnt, n, share), '%d of %d points are in the part %s, whose share of the area is %r', cnt, n,
                ext, share)
        if share < 0.02:
            small |= ok
            small_share += share
            n_small += 1
    require(likely(int(small.sum()), n, min(small_share, 1.0)), '%d of %d points are in the %d smallest parts, whose '
            'share of the area is %r', int(small.sum()), n, n_small, small_share)
    require((hit > 0).all(), 'point (%r, %r) is outside of the region or in a hole',
            *((x[hit == 0][0], y[hit == 0][0]) if not (hit > 0).all() else (0, 0)))
    for ax, v in ((0, x), (1, y)):
        coords = sorted(p[ax] for e, _ in parts for p in e)
        for f in (0.25, 0.5, 0.75):
            c = coords[0] + f * (coords[-1] - coords[0])
            share = area(parts, ax, c) / total
            cnt = int((v <= c).sum())
            require(likely(cnt, n, share), '%d of %d points have coordinate %d below %r, whose share of the area is %r',
                    cnt, n, ax, c, share)
    # boxes of several sizes, and the same halves twice in a row
    geom = MultiPolygon([Polygon(e, h) for e, h in parts])
    xs, ys = (sorted(p[ax] for e, _ in parts for p in e) for ax in (0, 1))
    frac = np.random.default_rng(n)
    for size in (0.5, 0.5, 0.3, 0.3, 0.15):
        a, b = frac.uniform(0, 1 - size, 2)
        bx = [xs[0] + a * (xs[-1] - xs[0]), xs[0] + (a + size) * (xs[-1] - xs[0])]
        by = [ys[0] + b * (ys[-1] - ys[0]), ys[0] + (b + size) * (ys[-1] - ys[0])]
        share = min(1.0, geom.intersection(rectangle(bx[0], by[0], bx[1], by[1])).area / total)
        cnt = int(((x >= bx[0]) & (x <= bx[1]) & (y >= by[0]) & (y <= by[1])).sum())
        require(likely(cnt, n, share), '%d of %d points are in the box %s x %s, whose share of the area is %r', cnt, n,
                bx, by, share)
    for ax, v in ((0, x), (1, y)):
        c = ((xs, ys)[ax][0] + (xs, ys)[ax][-1]) / 2
        share = area(parts, ax, c) / total
        low = v <= c
        # the pairs (0,1), (2,3), ... are independent of one another
        both = int((low[0:n - 1:2] & low[1:n:2]).sum())
        require(likely(both, n // 2, share * share), '%d of %d times two points in a row have coordinate %d below %r, whose '
                'share of the area is %r', both, n // 2, ax, c, share)
    n_holes = sum(len(h) for _, h in parts)
    ctx.label('%d part(s), %s' % (len(parts), 'holes' if n_holes else 'no hole'))
    ctx.nt(n_holes > 0 or len(parts) > 1)


def run(case, ctx):
    geom = build(case)
    if not geom.is_valid:
        ctx.label('generator made an invalid region')
        return
    if case['seed'] % 4 == 3:   # without a generator of the caller's: any points of the region
        ctx.label('no generator given')
        judge(case['parts'], [random_point_in_mpolygon(geom) for _ in range(case['n'])], ctx)
        return
    rng = np.random.default_rng(case['seed'])
    pts = [random_point_in_mpolygon(geom, rng=rng) for _ in range(case['n'])]
    again = random_point_in_mpolygon(geom, rng=np.random.default_rng(case['seed']))
    require((again.x, again.y) == (pts[0].x, pts[0].y), 'the same random state gives another point')
    judge(case['parts'], pts, ctx)


def change(parts, how):
    """Another region that shares much with the given one."""
    ext = [e for e, _ in parts]
    lo, hi = ([f(p[ax] for e in ext for p in e) for ax in (0, 1)] for f in (min, max))
    both = lambda f: [[[f(p) for p in e], [[f(p) for p in h] for h in hs]] for e, hs in parts]
    if how == 'mirror':     # same size, same bounds
        return both(lambda p: [lo[0] + hi[0] - p[0], p[1]])
    if how == 'flip':
        return both(lambda p: [p[0], lo[1] + hi[1] - p[1]])
    if how == 'shift':
        return both(lambda p: [p[0] + 0.37 * (hi[0] - lo[0]), p[1]])
    if how == 'filled':     # same outlines, but the holes (and what is in them) are gone
        return [[e, []] for i, (e, _) in enumerate(parts)
                if not any(j != i and winding(np.array([e[0][0]]), np.array([e[0][1]]), f)[0][0]
                           for j, f in enumerate(ext))]
    if how == 'swap':
        return both(lambda p: [p[1], p[0]])
    return [parts[0]]


@st.composite
def pairs(draw):
    return {'region': draw(regions(400)), 'how': draw(st.sampled_from(['mirror', 'flip', 'shift', 'filled', 'swap', 'first'])),
            'block': draw(st.sampled_from([1, 1, 2, 25])), 'keep': draw(st.booleans())}


def run_pair(case, ctx):
    """Points drawn from two similar regions in turn, with one random generator."""
    one = case['region']
    cases2 = [one, dict(one, parts=change(one['parts'], case['how']))]
    geoms = [build(c) for c in cases2]
    if not all(g.is_valid for g in geoms):
        ctx.label('generator made an invalid region')
        return
    rng = np.random.default_rng(one['seed'])
    pts = [[], []]
    while len(pts[1]) < one['n']:
        for i in (0, 1):
            g = geoms[i] if case['keep'] else build(cases2[i])
            pts[i] += [random_point_in_mpolygon(g, rng=rng) for _ in range(case['block'])]
    for c, p in zip(cases2, pts):
        judge(c['parts'], p, ctx)


SUBS = [Sub('many holes and parts', sieves(), run, quick=96, thorough=1200),
        Sub('uniform', regions(), run, quick=320, thorough=4000),
        Sub('uniform_fine', regions(4000), run, quick=48, thorough=480),
        Sub('two regions in turn', pairs(), run_pair, quick=96, thorough=2400)]
