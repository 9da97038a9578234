# PY: venv
# STUBS: core
"""P13: the k-nearest-neighbour roadmap joins exactly the valid nearest-neighbour pairs."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, roads

ID = 'P13'


@st.composite
def cases(draw):
    w = draw(roads.world(distinct=True))
    n = draw(st.integers(4, 26))
    kmax = draw(st.integers(2, 12))
    knobs = draw(st.sampled_from([['k'], ['radius'], ['k', 'radius']]))
    trunc = 'radius' in knobs and draw(st.booleans())
    ops = [['grow', n]]
    for _ in range(draw(st.integers(0, 5))):
        if draw(st.integers(0, 4)) == 0:
            n += draw(st.integers(1, 8))
            ops.append(['grow', n])
            continue
        if draw(st.sampled_from(knobs)) == 'k':
            ops.append(['k', draw(st.integers(2, kmax))])
        else:
            # a fraction of the certified radius, or a rank among the roadmap's distances
            ops.append(['radius', draw(st.one_of(gen.in_range(0.1, 1.0), st.sampled_from([0.0, 1.0, 1.3, 2.0]),
                                                   roads.near_a_distance()))])
    return dict(w, k=kmax, ops=ops, truncate=trunc, flavour=draw(st.sampled_from(roads.FLAVOURS)),
                exp_mode=draw(st.booleans()))


def run(case, ctx):
    flavour = case['flavour']
    _, P = roads.modules(flavour)
    w = roads.World(case)
    rel = roads.tol(flavour)
    sf = flavour == 'pynndescent'
    kmax = case['k']
    prm = P.SimpleNearestNeighborRadiusPRM(kmax, w.check_motion, w.sample, w.dist_to_path,
                                           truncate_to_eff_rad=case['truncate'])
    prm.in_mp_exp_mode = case['exp_mode']
    try:
        n, k, k_grown, r = 0, kmax, kmax, None
        for op, arg in case['ops']:
            what = '%s %r' % (op, arg)
            if op == 'grow':
                before = None if prm.prm_samples is None else np.array(prm.prm_samples)
                ret = prm.grow_to_n_samples(arg)
                n, r, k_grown = arg, None, k
                pts = np.array(prm.prm_samples, dtype=float)
                require(pts.shape == (n, w.dim), 'samples have shape %s', pts.shape)
                if before is not None:
                    require(np.array_equal(before, pts[:len(before)]), 'growing changed earlier samples')
                dist = roads.pairs_dist(pts)
                valid = roads.valid_matrix(w, pts)
                certs = sorted({roads.kth_distance(dist, kk, sf) for kk in {min(k, n - 1), min(k, n)}})
                c = prm.certified_max_conn_r
                cert = min(certs, key=lambda x: abs(x - c))
                require(abs(c - cert) <= 2 * rel * (1 + cert), 'certified radius %r, but the smallest distance to a '
                        'k-th neighbour is %r (k=%d)', float(c), cert, k)
                if case['truncate']:
                    r = float(c)
                    require(ret is not None and abs(ret[0] - cert) <= 2 * rel * (1 + cert),
                            'growing reports another certified radius')
            elif op == 'k':
                if arg > k_grown:
                    continue      # more neighbours than the roadmap was last grown with: unspecified
                prm.set_nearest_neighbors(arg)
                ctx.label('k ' + ('lowered' if arg < k else 'raised'))
                k = arg
            else:
                new = roads.resolve_radius(arg, pts, float(prm.certified_max_conn_r))
                with contextlib.redirect_stdout(io.StringIO()):
                    prm.set_connection_radius(new)
                ctx.label('radius ' + ('lowered' if r is None or new < r else 'raised'))
                r = new
            # the full lists: never more than n - 1 entries (or n, counting the sample itself)
            sure, unsure = roads.neighbour_pairs(dist, min(k, n - 1), sf)
            if k > n - 1:
                s2, u2 = roads.neighbour_pairs(dist, min(k, n), sf)
                unsure = (unsure | s2 | u2) - sure
            want = {e for e in sure if valid[e]}
            maybe = {e for e in unsure if valid[e]}
            if r is not None:
                edge = {e for e in want | maybe if abs(dist[e] - r) <= 2 * rel * (1 + r)}
                want = {e for e in want if dist[e] < r} - edge
                maybe = ({e for e in maybe if dist[e] < r} | edge) - want
            roads.compare(prm, n, want, maybe, dist, rel * 2, what)
            asym = any((i, j) in sure for i in range(n) for j in range(i + 1, n)) and any(not valid[e] for e in sure)
            ctx.nt(asym and op != 'grow')
        roads.samples_follow(w, 0, prm.prm_samples)
    finally:
        prm.reset()


@st.composite
def large(draw):
    c = draw(cases())
    f = draw(st.sampled_from([4, 7]))
    c['ops'] = [[op[0], op[1] * f] if op[0] != 'radius' else op for op in c['ops']]
    c['k'] *= f
    c['rule'] = draw(st.sampled_from([['all'], ['hash', 0.7], ['wall', 0.2]]))
    return c


@st.composite
def huge(draw):
    c = draw(cases())
    n = draw(st.integers(257, 330))
    c['dim'] = draw(st.integers(1, 3))
    c['rule'] = draw(st.sampled_from([['all'], ['hash', 0.7], ['wall', 0.2]]))
    c['k'] = draw(st.sampled_from([5, 12, 40, 128]))
    ops = [['grow', n]]
    if draw(st.booleans()):
        ops.append(['radius', 0.8] if c['truncate'] else ['k', draw(st.integers(2, c['k']))])
    if draw(st.booleans()):
        ops.append(['grow', n + draw(st.integers(1, 40))])
    c['ops'] = ops
    return c


SUBS = [Sub('huge roadmap', huge(), run, quick=24, thorough=400),
        Sub('roadmap', cases(), run, quick=6000, thorough=40000),
        Sub('large roadmap', large(), run, quick=80, thorough=2000)]
