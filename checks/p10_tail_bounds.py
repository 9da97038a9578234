# PY: vt
# STUBS: core
"""P10: the k-nearest-neighbour tail bounds against exact binomial tails."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, refbound as ref
from nonasymptotic import bound

ID = 'P10'


@st.composite
def cases(draw):
    d = draw(st.one_of(st.integers(1, 10), st.integers(1, 24)))
    vol = draw(st.one_of(st.just(1.0), gen.in_range(0.05, 50.0)))
    big = draw(st.integers(0, 3)) == 0
    m = draw(st.integers(3000, 10 ** 6)) if big else draw(st.one_of(st.integers(2, 60), st.integers(2, 3000)))
    k = draw(st.one_of(st.integers(1, min(m - 1, 40)), st.integers(1, m - 1)))
    how = draw(st.sampled_from(['below', 'below', 'below', 'tiny', 'any', 'over']))
    u = draw(gen.unit())
    p = {'below': k / m * u, 'tiny': k / m * 10.0 ** (-60 * u), 'any': u, 'over': 1 + 2 * u}[how]
    r = (p * vol / float(ref.ball_volume(d))) ** (1 / d)
    return {'m': m, 'k': k, 'dim': d, 'vol': vol, 'radius': r, 'grow': 1 + draw(gen.unit()) ** 3}


def xlogy(x, y):
    return 0.0 if x == 0 else x * math.log(y)


def run(c, ctx):
    m, k, d, vol, r = c['m'], c['k'], c['dim'], c['vol'], c['radius']
    raw = float(ref.ball_volume(d)) / vol * r ** d
    p = min(raw, 1.0)
    n = m - 1
    exact = math.log(m) + ref.log_binom_tail(n, p, k) if m <= 3000 else None
    q = k / n - raw
    hoeff = math.log(m) - 2 * n * max(q, 0.0) ** 2
    mu = n * p
    chern = math.log(m) - mu + k * (1 + math.log(mu) - math.log(k))
    a = p + max(k / m - p, 0.0)
    a = min(a, 1.0)
    klv = 0.0 if p >= 1 else max(xlogy(a, a / p) + xlogy(1 - a, (1 - a) / (1 - p)), 0.0)
    kl = math.log(m) - klv * n
    table = [('Hoeffding', bound.compute_tail_knn_radius_log_prob_hoeffding(m, k, r, d, vol), hoeff, True,
              bound.compute_tail_knn_radius_log_prob_hoeffding),
             ('Hoeffding, mean form', bound.compute_tail_knn_radius_log_prob_hoeffding_mean_variant(m, k, r, d, vol), hoeff,
              True, bound.compute_tail_knn_radius_log_prob_hoeffding_mean_variant),
             ('Chernoff', bound.compute_tail_knn_radius_log_prob_chernoff_generic(m, k, r, d, vol), chern, k > mu,
              bound.compute_tail_knn_radius_log_prob_chernoff_generic),
             ('KL', bound.compute_tail_knn_radius_log_prob_chernoff_kl(m, k, r, d, vol), kl, True,
              bound.compute_tail_knn_radius_log_prob_chernoff_kl)]
    single = float(bound.compute_tail_knn_radius_log_prob_chernoff_kl(m, k, r, d, vol, enable_union_bound_factor=False))
    scale = math.log(m) + n * (klv + 1e-7) + k + mu
    require(abs(single + klv * n) <= 1e-9 * (1 + scale) + 1e-12 * n, 'KL bound without the union factor is %r, reported %r',
            -klv * n, single)
    for name, got, want, applies, fn in table:
        got = float(got)
        radii = np.array([r, r / 2, r / 3])
        try:
            every = fn(m, k, radii, d, vol)
        except (TypeError, ValueError):         # one radius at a time, then
            every = None
        if every is not None:
            alone = [float(fn(m, k, float(x), d, vol)) for x in radii]
            require(np.shape(every) == (3,) and all(abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(every, alone)),
                    '%s bound of the radii %s is %s, one by one %s', name, radii.tolist(), np.asarray(every).tolist(), alone)
        require(abs(got - want) <= 1e-9 * (1 + abs(want) + scale) + 1e-12 * n, '%s bound is %r, reported %r', name, want, got)
        if applies and exact is not None:
            require(got >= exact - 1e-9 * (1 + abs(exact)), '%s bound %r is below the exact log probability %r', name, got,
                    exact)
        if applies:
            ctx.nt(got < math.log(m) - 1e-6)
            r2 = r * c['grow']
            mu2 = n * min(float(ref.ball_volume(d)) / vol * r2 ** d, 1.0)
            if name != 'Chernoff' or k >= mu2:
                got2 = float(fn(m, k, r2, d, vol))
                require(got2 >= got - 1e-9 * (1 + abs(got) + scale) - 1e-12 * n, '%s bound falls from %r to %r as the radius '
                        'grows from %r to %r', name, got, got2, r, r2)


SUBS = [Sub('bounds', cases(), run, quick=8000, thorough=120000)]
