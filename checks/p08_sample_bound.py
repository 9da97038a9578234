# PY: vt
# STUBS: core
"""P08: the numerical bound is the smallest certified sample count."""
import math
from hypothesis import strategies as st
from vlib.core import Sub, require, Violation
from vlib import gen, refbound as ref
from nonasymptotic import bound

ID = 'P08'

probs = st.one_of(st.sampled_from([0.5, 0.9, 0.95, 0.99, 0.999, 0.01, 0.1]), gen.unit(),
                  st.integers(1, 12).map(lambda e: 1 - 10.0 ** -e), st.integers(1, 9).map(lambda e: 10.0 ** -e))
tols = st.one_of(st.none(), st.sampled_from([0.05, 0.1, 0.5, 1.0, 2.0]), gen.in_range(0.01, 5.0))


@st.composite
def params(draw):
    d = draw(st.one_of(st.integers(1, 7), st.integers(1, 20)))
    c = {'dim': d, 'clearance': draw(st.one_of(st.sampled_from([0.025, 0.1, 0.2, 0.5]), gen.in_range(0.01, 1.5))),
         'prob': draw(probs), 'tol': draw(tols),
         'vol': draw(st.one_of(st.just(1.0), st.sampled_from([0.5, 2.0, 16.0]), gen.in_range(0.05, 50.0)))}
    r = float(ref.rho(c['clearance'], c['tol'], d, c['vol']))
    if r > 1.0:   # the set system's balls cannot be larger than the environment
        c['vol'] = c['vol'] * r * (1 + draw(gen.unit()))
    return c


def call(c):
    n, r = bound.compute_numerical_bound(c['clearance'], c['prob'], c['vol'], c['dim'], c['tol'])
    require(n == int(n) and n >= 2, 'the bound %r is not a sample count', n)
    return int(n), float(r)


def run(case, ctx):
    n, conn = call(case)
    rho = ref.rho(case['clearance'], case['tol'], case['dim'], case['vol'])
    vc = case['dim'] + 1
    a = ref.alpha(case['tol'])
    want = 2 * (a + ref.mp.sqrt(1 - a * a)) * ref.mp.mpf(case['clearance'])
    require(abs(conn - want) <= 1e-9 * want, 'connection radius is %r, reported %r', float(want), conn)
    goal = ref.mp.log(1 - ref.mp.mpf(case['prob']), 2)
    f = [ref.log2_failure(m, rho, vc) for m in (n - 1, n, n + 1)]
    slop = 1e-9 * (1 + abs(float(goal)) + float(rho) * n)
    require(f[1] <= goal + slop, 'n = %d is not certified: log2 failure %.12f > %.12f', n, float(f[1]), float(goal))
    require(f[2] <= f[1] + slop, 'at n = %d the failure bound still rises', n)
    if n > 2:
        require(f[0] >= goal - slop or f[1] >= f[0] - slop, 'n = %d is not the smallest: n - 1 has log2 failure %.12f <= '
                '%.12f', n, float(f[0]), float(goal))
    if case['tol'] is not None:
        got = float(bound.compute_connection_radius(case['clearance'], case['tol']))
        require(abs(got - want) <= 1e-9 * want, 'connection radius formula gives %r, expected %r', got, float(want))
    ctx.nt(n > 2)
    ctx.label('n < 1e%d' % len(str(n)) if n < 1e9 else 'n >= 1e9')


@st.composite
def pairs(draw):
    c = draw(params())
    which = draw(st.sampled_from(['prob', 'vol', 'clearance', 'tol', 'no_tol', 'scale']))
    other = dict(c)
    if which == 'prob':
        other['prob'] = draw(probs)
    elif which == 'vol':
        other['vol'] = c['vol'] * (1 + 3 * draw(gen.unit()))
    elif which == 'clearance':
        other['clearance'] = c['clearance'] * draw(gen.unit())
    elif which == 'tol':
        c['tol'] = draw(gen.in_range(0.02, 3.0))
        other['tol'] = c['tol'] * draw(gen.in_range(0.2, 1.0))
        if ref.rho(c['clearance'], c['tol'], c['dim'], c['vol']) > 1:
            c['vol'] = other['vol'] = float(ref.rho(c['clearance'], c['tol'], c['dim'], c['vol'])) * c['vol'] * 1.5
    elif which == 'no_tol':
        other['tol'] = draw(gen.in_range(0.02, 3.0))
        c['tol'] = None
        if ref.rho(c['clearance'], None, c['dim'], c['vol']) > 1:
            c['vol'] = other['vol'] = float(ref.rho(c['clearance'], None, c['dim'], c['vol'])) * c['vol'] * 1.5
    else:   # a power of two scales clearance and volume without rounding
        k = draw(st.sampled_from([2.0, 4.0, 0.5]))
        other['clearance'], other['vol'] = c['clearance'] * k, c['vol'] * k ** c['dim']
    return {'which': which, 'a': c, 'b': other}


def run_pairs(case, ctx):
    a, b, which = case['a'], case['b'], case['which']
    (na, ra), (nb, rb) = call(a), call(b)
    slop = 1 + 1e-9 * max(na, nb)
    if which == 'prob':
        lo, hi = (na, nb) if a['prob'] <= b['prob'] else (nb, na)
        require(lo <= hi, 'a higher success probability needs fewer samples: %s %d, %s %d', a, na, b, nb)
    elif which == 'scale':
        require(abs(na - nb) <= slop, 'scaling the world changes the bound from %d to %d', na, nb)
    else:
        require(na <= nb + (slop if na > 1e12 else 0), 'the easier problem %s needs more samples (%d) than %s (%d)', a, na,
                b, nb)
    ctx.nt(na != nb or which == 'scale')
    ctx.label(which)


@st.composite
def bad(draw):
    c = draw(params())
    c['prob'] = draw(st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0, -1e-12, 1.0 + 1e-12]),
                               gen.unit().map(lambda u: -u), gen.unit().map(lambda u: 1 + u)))
    return c


def run_bad(case, ctx):
    try:
        r = bound.compute_numerical_bound(case['clearance'], case['prob'], case['vol'], case['dim'], case['tol'])
    except (ArithmeticError, ValueError):
        ctx.nt(True)
        return
    raise Violation('success probability %r was accepted, with answer %s' % (case['prob'], r))


@st.composite
def sequences(draw):
    """A log2 failure bound that rises to a peak and then falls: f(m) = a*log2(m+b) - c*m + e, or piecewise linear."""
    kind = draw(st.sampled_from(['log', 'linear']))
    prob = draw(probs)
    if kind == 'log':
        return {'kind': kind, 'prob': prob, 'a': draw(st.integers(0, 12)), 'b': draw(st.integers(0, 50)),
                'c': draw(gen.in_range(0.01, 2.0)), 'e': draw(gen.in_range(-60.0, 10.0))}
    return {'kind': kind, 'prob': prob, 'peak': draw(st.one_of(st.integers(1, 9), st.integers(1, 3000))),
            'top': draw(gen.in_range(-40.0, 20.0)), 'up': draw(gen.in_range(0.01, 20.0)),
            'down': draw(gen.in_range(0.01, 20.0))}


def run_seq(case, ctx):
    if case['kind'] == 'log':
        f = lambda m: case['a'] * math.log2(m + case['b']) - case['c'] * m + case['e']  # noqa: E731
    else:
        f = lambda m: case['top'] - (case['up'] * (case['peak'] - m) if m < case['peak']   # noqa: E731
                                     else case['down'] * (m - case['peak']))
    goal = math.log2(1 - case['prob'])
    want = 2
    while not (f(want) <= goal and f(want + 1) <= f(want)):
        want += 1
        if want > 60000:
            return
    if abs(f(want) - goal) < 1e-9 or abs(f(want - 1) - goal) < 1e-9:
        return
    got = bound.doubling_sample_search_over_log2_prob_bound(f, case['prob'])
    require(got == want, 'the first certified count of the sequence is %d, the search returned %s', want, got)
    ctx.nt(want > 2)
    ctx.label('past a low start' if f(2) <= goal and want > 2 else 'plain')


SUBS = [Sub('minimal', params(), run, quick=4000, thorough=60000),
        Sub('monotone', pairs(), run_pairs, quick=2000, thorough=30000),
        Sub('rejects', bad(), run_bad, quick=400, thorough=2000),
        Sub('search', sequences(), run_seq, quick=2400, thorough=30000)]
