# PY: venv
# STUBS: core
"""P04: environment samplers: support, uniformity, reproducibility."""
import itertools
import random
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, geo
from vlib.stats import likely
from nonasymptotic.envs import StraightLine, NarrowPassage, GrayCodeWalls

ID = 'P04'


@st.composite
def configs(draw):
    kind = draw(st.sampled_from(['line', 'narrow', 'narrow', 'maze', 'maze']))
    c = {'env': kind, 'seed': draw(gen.seeds())}
    if kind == 'line':
        c['dim'] = draw(st.sampled_from([2, 3, 5, 9, 20]))
        c['delta'] = draw(st.one_of(st.sampled_from([0.1, 0.5]), gen.in_range(0.01, 2.0)))
        c['length'] = draw(st.sampled_from([1.0, 0.25, 3.0]))
    elif kind == 'narrow':
        c['dim'] = draw(st.sampled_from([2, 3, 4, 5, 8, 12]))
        c['clearance'] = draw(st.one_of(st.sampled_from([0.1, 0.25, 0.4]), gen.in_range(0.02, 0.5)))
    else:
        c['dim'], c['length'] = draw(st.sampled_from([(2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1),
                                                       (2, 6), (4, 2), (5, 1), (2, 6), (4, 2), (5, 1), (7, 1), (2, 60)]))
        c['thickness'] = draw(st.one_of(st.sampled_from([0.0, 0.1, 0.25, 0.4]), gen.in_range(0.02, 0.48)))
    return c


def make(c, seed=None):
    seed = c['seed'] if seed is None else seed
    if c['env'] == 'line':
        return StraightLine(c['dim'], c['delta'], length=c['length'], seed=seed)
    if c['env'] == 'narrow':
        return NarrowPassage(c['dim'], c['clearance'], seed)
    return GrayCodeWalls(c['dim'], c['length'], c['thickness'], seed=seed)


def boxes(c):
    """[(name, lower, upper)] of disjoint boxes whose union is the region sampled from."""
    d = c['dim']
    if c['env'] == 'line':
        return [('box', [-c['delta']] * d, [c['length'] + c['delta']] + [c['delta']] * (d - 1))]
    if c['env'] == 'narrow':
        h = c['clearance']
        return [('left', [-1.5] + [-.5] * (d - 1), [-.5] + [.5] * (d - 1)),
                ('hall', [-.5] + [-h] * (d - 1), [.5] + [h] * (d - 1)),
                ('right', [.5] + [-.5] * (d - 1), [1.5] + [.5] * (d - 1))]
    th, out = c['thickness'], []
    path = geo.maze_path(d, c['length'])
    for k, cell in enumerate(path):
        lo, hi = [x + th for x in cell], [x + 1 - th for x in cell]
        out.append(('centre', lo, hi))
        if th > 0:
            for ax, s in geo.maze_doors(path, k):
                l2, h2 = list(lo), list(hi)
                l2[ax], h2[ax] = (hi[ax], cell[ax] + 1.0) if s > 0 else (float(cell[ax]), lo[ax])
                out.append(('door%+d' % s, l2, h2))
    return out


def uniform(c, ctx, n):
    env = make(c)
    pts = np.array([np.asarray(env.sample_from_env()).reshape(-1) for _ in range(n)])
    require(pts.shape == (n, c['dim']), 'samples of shape %s in dimension %d', pts.shape[1:], c['dim'])
    bs = boxes(c)
    lo, hi = np.array([b[1] for b in bs], float), np.array([b[2] for b in bs], float)
    vols = np.prod(hi - lo, axis=1)
    probs = vols / vols.sum()
    inside = np.all((pts[:, None, :] >= lo - 1e-9) & (pts[:, None, :] <= hi + 1e-9), axis=2)
    require(inside.any(axis=1).all(), 'sample %s is outside the free space',
            pts[~inside.any(axis=1)][0].tolist() if not inside.any(axis=1).all() else None)
    which = inside.argmax(axis=1)
    names = sorted({b[0] for b in bs})
    for nm in names:
        idx = [i for i, b in enumerate(bs) if b[0] == nm]
        cnt = int(np.isin(which, idx).sum())
        require(likely(cnt, n, float(probs[idx].sum())), '%d of %d samples are in the %s regions, whose share of the '
                'volume is %r', cnt, n, nm, float(probs[idx].sum()))
    if c['env'] == 'maze':   # doors as a whole, which is where the smallest numbers are
        idx = [i for i, b in enumerate(bs) if b[0] != 'centre']
        cnt = int(np.isin(which, idx).sum())
        require(likely(cnt, n, float(probs[idx].sum())), '%d of %d samples are in doorways, share of volume %r', cnt, n,
                float(probs[idx].sum()))
    rel = (pts - lo[which]) / (hi[which] - lo[which])
    for i in range(len(bs)):
        sel = rel[which == i]
        require(likely(len(sel), n, float(probs[i])), '%d of %d samples are in the region %s..%s, share of the volume %r',
                len(sel), n, bs[i][1], bs[i][2], float(probs[i]))
    groups = [(nm, np.isin(which, [i for i, b in enumerate(bs) if b[0] == nm])) for nm in names]
    groups += [('region %d' % i, which == i) for i in range(len(bs))]
    for nm, mask in groups:
        r = rel[mask]
        for ax in range(c['dim']):
            for q in (0.25, 0.5, 0.75):
                cnt = int((r[:, ax] < q).sum())
                require(likely(cnt, len(r), q), 'coordinate %d within %s: %d of %d samples below the %g quantile', ax, nm,
                        cnt, len(r), q)
        for i, j in itertools.combinations(range(c['dim']), 2):
            cnt = int(((r[:, i] < .5) == (r[:, j] < .5)).sum())
            require(likely(cnt, len(r), 0.5), 'coordinates %d and %d within %s are correlated: %d of %d on the same '
                    'side', i, j, nm, cnt, len(r))
    same = int((which[1:] == which[:-1]).sum())
    ctx.nt(len(set(which.tolist())) > 1)
    ctx.label(c['env'])
    if len(bs) > 1:   # successive samples are independent (non-overlapping pairs)
        same = int((which[1::2] == which[0:-1:2][:len(which[1::2])]).sum())
        require(likely(same, len(which[1::2]), float((probs ** 2).sum())), 'successive samples are in the same region '
                '%d of %d times', same, len(which[1::2]))


def run_uniform(case, ctx):
    uniform(case, ctx, 20000)


@st.composite
def rare(draw):
    """A hallway in which one sample in many lies."""
    dim, share = draw(st.integers(2, 8)), 10.0 ** -draw(gen.in_range(3.0, 4.0))
    return {'env': 'narrow', 'seed': draw(gen.seeds()), 'dim': dim, 'clearance': (2 * share / (1 - share)) ** (1 / (dim - 1)) / 2}


def run_rare(case, ctx):
    env, h, d = make(case), case['clearance'], case['dim']
    share = (2 * h) ** (d - 1) / (2 + (2 * h) ** (d - 1))
    n = int(60 / share)
    x = np.array([np.asarray(env.sample_from_env()).reshape(-1) for _ in range(n)])
    hall = np.abs(x[:, 0]) < 0.5
    require(likely(int(hall.sum()), n, share), '%d of %d samples are in the hallway, whose share of the volume is %r',
            int(hall.sum()), n, share)
    require(bool((np.abs(x[hall, 1:]) <= h + 1e-9).all()), 'a sample lies beside the hallway')
    ctx.nt(True)


def ask(env, c, p):
    """Questions about the world, which must not disturb its samples."""
    env.arclength_to_curve_point(0.3)
    q = np.asarray(p, float).reshape(-1)
    if c['env'] == 'maze':
        env.is_motion_valid(q, q)
        env.distance_to_wall(q)
    else:
        env.is_motion_valid(q.reshape(1, -1), q.reshape(1, -1))
        env.distance_to_path(q.reshape(1, -1))


def run_repro(case, ctx):
    c, n = case['config'], case['n']
    e1 = make(c)
    a = []
    for i in range(n):
        p = np.asarray(e1.sample_from_env())
        a.append(p.copy())
        if i % 5 == case['ask'] % 7:
            ask(e1, c, p)
        if i % 3 == 0 and p.flags.writeable:
            p += 3.0        # the caller's own array
    random.seed(case['noise'])
    np.random.seed(case['noise'] % 2 ** 32)
    e2, e3 = make(c), make(c, c['seed'] + 1 if case.get('bit') is None else c['seed'] ^ (1 << case['bit']))
    b, other = [], []
    for _ in range(n):
        other.append(np.asarray(e3.sample_from_env()).copy())
        np.random.random()
        random.random()
        b.append(np.asarray(e2.sample_from_env()).copy())
    require(all(np.array_equal(x, y) for x, y in zip(a, b)), 'two environments with the same seed produce different '
            'samples')
    require(not all(np.array_equal(x, y) for x, y in zip(a, other)), 'different seeds produce the same samples')
    ctx.nt(c['env'] != 'line')
    ctx.label(c['env'])


SUBS = [
    Sub('uniform', configs(), run_uniform, quick=160, thorough=2400),
    Sub('rare hallway', rare(), run_rare, quick=8, thorough=160),
    Sub('reproducible', st.fixed_dictionaries({'config': configs(), 'noise': gen.seeds(),
                                                     'n': st.sampled_from([12, 12, 12, 80, 400]),
                                                     'bit': st.one_of(st.none(), st.integers(0, 63)),
                                                     'ask': st.integers(0, 6)}), run_repro, quick=800, thorough=8000),
]
