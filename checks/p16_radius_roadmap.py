# PY: venv
# STUBS: core
"""P16: the radius roadmap built by doubling k joins exactly the close, valid pairs."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, roads

ID = 'P16'


@st.composite
def cases(draw):
    w = draw(roads.world(max_dim=4))
    n = draw(st.one_of(st.integers(3, 40), st.integers(17, 70)))
    ops = [['grow', n]]
    for _ in range(draw(st.integers(0, 3))):
        if draw(st.integers(0, 2)):
            n += draw(st.integers(1, 25))
            if n > 110:
                break
            ops.append(['grow', n])
        else:
            ops.append(['query', [draw(gen.unit())] + [0.0] * (w['dim'] - 1),
                        [draw(gen.unit())] + [0.0] * (w['dim'] - 1)])
    # a radius, or one at which only so many samples of a growth have 16 (32) others within it
    radius = st.one_of(gen.in_range(0.02, 0.6), gen.in_range(0.0, 1.5), st.just(0.25),
                       st.tuples(st.sampled_from([15, 16, 31, 32]), st.integers(1, 8), st.integers(0, 2)).map(list),
                       st.tuples(st.sampled_from([15, 16]), st.sampled_from([1, 3, 30, 100]), st.integers(0, 2),
                                 gen.in_range(2.0, 4.0)).map(list),
                       roads.near_a_distance())
    return dict(w, radius=draw(radius),
                cap=draw(st.sampled_from([None, None, 16, 32, 64, 512])), ops=ops, exp_mode=draw(st.booleans()),
                flavour=draw(st.sampled_from(roads.FLAVOURS)))


class Stars(roads.World):
    """Scattered samples, and two close ones with many others near each of them that are far from one another, so
    that only these two need more neighbours than all the rest."""

    def __init__(self, case):
        super().__init__(case)
        d, spread, gap = self.dim, case['star'][0], case['star'][1]
        rng = np.random.default_rng([case['seed'], 7])
        frame = np.linalg.qr(rng.normal(size=(d, d)))[0]
        arms = np.concatenate([frame, -frame])
        a = np.zeros(d)
        b = a + gap * arms[0]
        pts = [a, b]
        for c, skip in ((a, 0), (b, d)):       # (the arms that point at the other one are left out)
            pts += [c + spread * (1 + 0.01 * i / d) * v for i, v in enumerate(arms) if i != skip]
        pts += [4.0 + 6.0 * i + rng.normal(size=d) for i in range(case['star'][2])]
        self.pts = [np.asarray(p) / 4.0 for p in np.array(pts)[rng.permutation(len(pts))]]

    def sample(self):
        i = len(self.drawn) - 1        # the first one drawn tells the dimension
        if 0 <= i < len(self.pts):
            p = self.place(self.pts[i])
            self.drawn.append(p.copy())
            return p
        return super().sample()


def world_of(case):
    return Stars(case) if 'star' in case else roads.World(case)


def few_crowded(case, crowd, m, which, just=None):
    sizes = [op[1] for op in case['ops'] if op[0] == 'grow']
    w = roads.World(case)
    w.sample()
    pts = np.array([w.sample() for _ in range(sizes[which % len(sizes)])])
    dist = np.sort(roads.pairs_dist(pts), axis=1)
    far = np.sort(dist[:, min(crowd, len(pts) - 1)])
    if just is not None:        # just above the distance at which one more has so many others
        return float(far[min(m, len(far) - 1)] * (1 + 10.0 ** -just))
    return float((far[min(m, len(far) - 1)] + far[max(0, min(m, len(far) - 1) - 1)]) / 2)


def run(case, ctx):
    _, P = roads.modules(case['flavour'])
    w = world_of(case)
    r = case['radius']
    if isinstance(r, list) and r[0] == 'near':
        like = roads.World(case)
        r = roads.resolve_radius(r, np.array([like.sample() for _ in range(case['ops'][0][1] + 1)])[1:])
    elif isinstance(r, list):
        r = few_crowded(case, *r)
    else:
        r = r * w.scale
    rel = roads.tol(case['flavour'])
    kw = {} if case['cap'] is None else {'max_k_connection_neighbors': case['cap']}
    cap = 512 if case['cap'] is None else case['cap']
    prm = P.SimpleRadiusPRM(r, w.check_motion, w.sample, w.dist_to_path, **kw)
    prm.in_mp_exp_mode = case['exp_mode']
    try:
        n, binds = 0, False
        for i, op in enumerate(case['ops']):
            what = '%s %s' % (op[0], op[1])
            if op[0] == 'query':
                prm.query_best_solution(w.place(np.array(op[1])), w.place(np.array(op[2])))
            else:
                before = None if prm.prm_samples is None else np.array(prm.prm_samples)
                prm.grow_to_n_samples(op[1])
                pts = np.array(prm.prm_samples, dtype=float)
                require(pts.shape == (op[1], w.dim), 'samples have shape %s, %d were asked for', pts.shape, op[1])
                if before is not None:
                    require(np.array_equal(before, pts[:n]), 'growing changed earlier samples')
                roads.samples_follow(w, 0, pts)
                n = op[1]
                dist = roads.pairs_dist(pts)
                valid = roads.valid_matrix(w, pts)
                close = (dist <= r * (1 + rel) + rel).sum(axis=1)     # counts the sample itself
                binds = binds or bool(close.max() >= cap)
            if binds:
                ctx.label('neighbour cap binds')
                continue
            want, unsure = roads.within(dist, valid, r, rel)
            roads.compare(prm, n, want, unsure, dist, 2 * rel, what)
            ctx.nt(bool(want) and (close.max() > 16 or i > 0))
            if close.max() > 16:
                ctx.label('more than 16 close samples')
        roads.samples_follow(w, 0, prm.prm_samples)
    finally:
        prm.reset()


@st.composite
def large(draw):
    c = draw(cases())
    f = draw(st.sampled_from([3, 4, 5]))
    c['ops'] = [[op[0], op[1] * f] if op[0] == 'grow' else op for op in c['ops']]
    while [op for op in c['ops'] if op[0] == 'grow'][-1][1] > 300:
        c['ops'].pop()
        if len(c['ops']) <= 1:
            c['ops'] = [['grow', 300]]
    c['rule'] = draw(st.sampled_from([['all'], ['hash', 0.7]]))
    c['cap'] = draw(st.sampled_from([None, 64, 128]))
    c['radius'] = draw(st.tuples(st.sampled_from([15, 16, 31, 32]), st.integers(3, 30), st.integers(0, 2)).map(list))
    return c


@st.composite
def stars(draw):
    d = draw(st.integers(9, 12))
    spread, gap = draw(gen.in_range(0.75, 0.9)), draw(gen.in_range(0.92, 0.99))
    lone = draw(st.integers(0, 200))
    n = 2 + 2 * (2 * d - 1) + lone
    first = draw(st.one_of(st.just(n), st.integers(20, n)))
    return dict(dim=d, rule=draw(st.sampled_from([['all'], ['hash', 0.9]])), seed=draw(st.integers(0, 10 ** 6)),
                scale=draw(st.sampled_from([0.5, 4.0])), star=[spread, gap, lone], radius=0.25, cap=None,
                ops=[['grow', first]] + [['grow', n]] * (first < n), exp_mode=False,
                flavour=draw(st.sampled_from(roads.FLAVOURS)))


SUBS = [Sub('crowded pair', stars(), run, quick=240, thorough=3000),
        Sub('roadmap', cases(), run, quick=4000, thorough=40000),
        Sub('large roadmap', large(), run, quick=240, thorough=4000)]
