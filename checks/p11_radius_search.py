# PY: vt
# STUBS: core
"""P11: the radius search and the closed-form effective connection radius."""
import math
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, refbound as ref
from nonasymptotic import bound

ID = 'P11'


@st.composite
def searches(draw):
    lb = draw(st.one_of(st.just(0.0), gen.in_range(0.0, 5.0)))
    width = draw(st.sampled_from([0.1, 1.0, 3.0, 100.0]))
    ub = lb + width
    where = draw(st.sampled_from(['inside', 'inside', 'inside', 'below', 'above', 'near_lb']))
    u = draw(gen.unit())
    star = {'inside': lb + width * u, 'below': lb - 0.1 - u, 'above': ub + 0.1 + u, 'near_lb': lb + 1e-3 * width * u}[where]
    shape = draw(st.sampled_from(['linear', 'log', 'hump', 'saturating', 'cubic']))
    return {'lb': lb, 'ub': ub, 'star': star, 'shape': shape, 'slope': draw(gen.in_range(0.05, 20.0)),
            'peak': draw(gen.in_range(0.02, 1.0)) * width, 'prob': draw(st.one_of(gen.unit(), st.sampled_from([0.9, 0.99]))),
            'tol': draw(st.sampled_from([None, 1e-6, 1e-5, 1e-4, 1e-2, 1e-9])) if width <= 3 else
            draw(st.sampled_from([1e-3, 1e-6]))}


def run_search(c, ctx):
    goal = math.log(1 - c['prob'])
    s, star, lb, ub = c['slope'], c['star'], c['lb'], c['ub']
    shape = c['shape']

    def f(r):
        if shape == 'linear':
            return goal + s * (r - star)
        if shape == 'cubic':
            return goal + s * ((r - star) + (r - star) ** 3)
        if shape == 'log':
            return goal + s * (math.log(r - lb + 2.0) - math.log(star - lb + 2.0))
        if shape == 'hump':
            top = star + c['peak']
            return goal + s * (r - star) if r <= top else goal + s * (top - star) - 3 * s * (r - top)
        return goal + s * (r - star) if r < star + c['peak'] else goal + s * c['peak']     # flat when vacuous
    tol = 1e-6 if c['tol'] is None else c['tol']
    got = float(bound.halving_radius_search_over_log_prob_bound(f, lb, ub, c['prob'], *([] if c['tol'] is None else [tol])))
    require(lb <= got <= ub, 'the search left its interval: %r', got)
    if star < lb:
        if abs(star - lb) > 1e-9:
            require(got == lb, 'nothing in the interval meets the bound, but the search returned %r instead of the lower end '
                    '%r', got, lb)
    else:
        want = min(star, ub)
        require(want - tol - max(1e-12, 1e-3 * tol) - 1e-14 * ub <= got <= want + 1e-9, 'the bound is met up to %r, the search (tolerance %g) returned %r',
                want, tol, got)
    ctx.nt(lb < star < ub)
    ctx.label('%s, threshold %s' % (shape, 'inside' if lb < star < ub else 'outside'))


@st.composite
def own(draw):
    d = draw(st.integers(1, 6))
    m = draw(st.integers(20, 2000))
    k = draw(st.integers(4, m - 1))
    return {'which': draw(st.sampled_from(['kl', 'hoeffding', 'generic'])), 'dim': d, 'm': m, 'k': k,
            'vol': draw(st.one_of(st.just(1.0), gen.in_range(0.5, 5.0))), 'prob': draw(st.sampled_from([0.5, 0.9, 0.99]))}


def run_own(c, ctx):
    """The search on the repository's bounds: the answer is certified against the exact binomial tail."""
    m, k, d, vol = c['m'], c['k'], c['dim'], c['vol']
    fn = {'kl': bound.compute_tail_knn_radius_log_prob_chernoff_kl,
          'hoeffding': bound.compute_tail_knn_radius_log_prob_hoeffding,
          'generic': bound.compute_tail_knn_radius_log_prob_chernoff_generic}[c['which']]
    unit = float(ref.ball_volume(d)) / vol
    hi = (1.0 / unit) ** (1 / d)
    lo = hi * 1e-3
    f = lambda r: float(fn(m, k, r, d, vol))  # noqa: E731
    r = float(bound.halving_radius_search_over_log_prob_bound(f, lo, hi, c['prob'], tol=1e-5 * hi))
    goal = math.log(1 - c['prob'])
    if f(lo) > goal:
        require(r == lo, 'no radius of the interval is certified, but the search returned %r', r)
        return
    exact = math.log(m) + ref.log_binom_tail(m - 1, min(unit * r ** d, 1.0), k)
    require(exact <= goal + 1e-9, 'the radius %r found with the %s bound fails with log probability %r > %r', r, c['which'],
            exact, goal)
    require(f(r) <= goal + 1e-9, 'the radius %r does not meet the bound', r)
    # largest on the rising part: a little further up the bound fails or the interval (or the rise) ends
    r2 = r + 1.2e-5 * hi
    if r2 < hi and unit * r2 ** d < min(1.0, k / (m - 1)) - 1e-9:
        require(f(r2) > goal - 1e-9, 'the bound is still met at %r, but the search stopped at %r', r2, r)
    ctx.nt(True)


@st.composite
def corollary(draw):
    m = draw(st.one_of(st.integers(30, 3000), st.integers(30, 10 ** 7)))
    fail = draw(st.one_of(st.sampled_from([0.5, 0.1, 0.01]), gen.unit()))
    kmin = int(2 * (math.log(m) - math.log(fail))) + 1
    k = draw(st.integers(kmin, m - 1)) if kmin < m - 1 else kmin
    if draw(st.booleans()):
        k = min(k, kmin + draw(st.integers(0, 50)))
    return {'m': m, 'k': k, 'dim': draw(st.integers(1, 12)), 'fail': fail,
            'vol': draw(st.one_of(st.just(1.0), st.sampled_from([2.0, 16.0, 0.1]), gen.in_range(0.01, 300.0)))}


def run_corollary(c, ctx):
    m, k, d, vol, fail = c['m'], c['k'], c['dim'], c['vol'], c['fail']
    numer = k - math.sqrt(2 * k * (math.log(m) - math.log(fail)))
    if k > m - 1 or numer <= 1e-6 * k:
        return
    unit = float(ref.ball_volume(d)) / vol
    want = (numer / ((m - 1) * unit)) ** (1 / d)
    got = float(bound.compute_eff_conn_rad_bound(m, k, d, vol, fail))
    require(abs(got - want) <= 1e-9 * want, 'the effective connection radius for %s is %r, reported %r', c, want, got)
    if m <= 3000:
        exact = math.log(m) + ref.log_binom_tail(m - 1, min(unit * got ** d, 1.0), k)
        require(exact <= math.log(fail) + 1e-9, 'the effective radius %r fails with log probability %r > log %r', got, exact,
                fail)
    ctx.nt(d > 1 and vol != 1.0)


SUBS = [Sub('search', searches(), run_search, quick=6000, thorough=80000),
        Sub('own_bounds', own(), run_own, quick=1600, thorough=20000),
        Sub('corollary', corollary(), run_corollary, quick=6000, thorough=80000)]
