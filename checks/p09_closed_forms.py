# PY: vt
# STUBS: core
"""P09: closed forms of the bounds' ingredients and the inversion of the failure bound."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, refbound as ref
from vlib.refbound import mp
from nonasymptotic import bound

ID = 'P09'
REL = 1e-9


def close(got, want, what, *args):
    got, want = mp.mpf(float(got)), mp.mpf(want)
    require(abs(got - want) <= REL * max(abs(want), mp.mpf(10) ** -290), what + ' is %.15g, reported %.15g',
            *(args + (float(want), float(got))))


vols = st.one_of(st.just(1.0), st.sampled_from([0.5, 2.0, 16.0]), gen.in_range(0.01, 100.0))
clearances = st.one_of(st.sampled_from([0.025, 0.1, 0.5, 1.0]), gen.in_range(0.001, 3.0))
tols = st.one_of(st.none(), st.sampled_from([0.1, 1.0]), gen.in_range(0.001, 10.0))

forms = st.fixed_dictionaries({'dim': st.one_of(st.integers(1, 20), st.integers(1, 20), st.integers(1, 60)), 'ball_dim': st.integers(1, 300), 'clearance': clearances, 'tol': tols, 'vol': vols,
                               'm': st.one_of(st.integers(1, 50), st.integers(1, 10 ** 9)), 'vc': st.one_of(st.integers(0, 21), st.integers(0, 61)),
                               'gamma': gen.unit(), 'net': gen.in_range(0.001, 3.0)})


def run_forms(c, ctx):
    d, m, vc = c['dim'], c['m'], c['vc']
    close(bound.compute_vol_unit_sphere(d), ref.ball_volume(d), 'volume of the unit ball of dimension %d', d)
    close(bound.compute_vol_unit_sphere(c['ball_dim']), ref.ball_volume(c['ball_dim']),
          'volume of the unit ball of dimension %d', c['ball_dim'])
    close(bound.compute_epsilon_net_radius(c['clearance'], c['tol']), ref.alpha(c['tol']) * mp.mpf(c['clearance']),
          'net radius for clearance %r and stretch %r', c['clearance'], c['tol'])
    r = ref.rho(c['clearance'], c['tol'], d, c['vol'])
    close(bound.compute_rho(c['clearance'], c['tol'], d, c['vol']), r, 'measure of a net ball (%s)', c)
    require(int(bound.compute_ss_comb_sum(m, vc)) == ref.ss_sum(m, vc), 'Sauer-Shelah sum for m=%d, vc=%d is %d', m, vc,
            ref.ss_sum(m, vc))
    want = ref.log2_failure(m, r, vc)
    got = float(bound.compute_sauer_shelah_bound_log2(m, float(r), vc))
    scale = 1 + abs(float(mp.log(ref.ss_sum(m, vc), 2))) + float(r) * m
    require(abs(got - want) <= 1e-9 * scale, 'log2 failure bound for m=%d, rho=%r, vc=%d is %r, reported %r', m, float(r),
            vc, float(want), got)
    if c['tol'] is not None:
        t = mp.mpf(c['tol'])
        close(bound.compute_connection_radius(c['clearance'], c['tol']),
              2 * mp.mpf(c['clearance']) * (1 + t) / mp.sqrt(1 + t * t), 'connection radius')
        many = [c['tol'], 2 * c['tol'], 0.5]        # the experiments are designed with a whole range of stretches
        got = bound.compute_connection_radius(c['clearance'], np.array(many))
        require(np.shape(got) == (3,), 'the connection radii of three stretches have shape %s', np.shape(got))
        for t, r in zip(many, got):
            t = mp.mpf(t)
            close(r, 2 * mp.mpf(c['clearance']) * (1 + t) / mp.sqrt(1 + t * t), 'connection radius for one of several stretches')
    eps = ref.ball_volume(d) * mp.mpf(c['net']) ** d / mp.mpf(c['vol'])
    g = mp.mpf(c['gamma'])
    close(bound.compute_blumer_bound(c['net'], d, c['gamma'], c['vol']),
          max(4 / eps * mp.log(2 / g, 2), 8 * (d + 1) / eps * mp.log(13 / eps, 2)), 'Blumer bound (%s)', c)
    ctx.nt(d > 1 and c['vol'] != 1.0)


@st.composite
def inversions(draw):
    c = {'dim': draw(st.one_of(st.integers(1, 12), st.integers(1, 40))), 'vol': draw(vols),
         'n': draw(st.one_of(st.integers(1, 60), st.integers(1, 10 ** 6), st.integers(1, 10 ** 9))),
         'fail': draw(st.one_of(gen.unit(), st.integers(1, 12).map(lambda e: 10.0 ** -e))),
         'correction': draw(st.sampled_from([None, None, 1, 2, 2.5, 10]))}
    return c


def run_inverse(c, ctx):
    d, n = c['dim'], c['n']
    if c['correction'] is None:
        r, m = bound.compute_net_radius_from_prob(d, n, c['fail'], c['vol']), n
    else:
        r = bound.compute_net_radius_from_prob(d, n, c['fail'], c['vol'], c['correction'])
        m = math.ceil(n / c['correction'])
    # the smallest radius whose failure bound is the given probability
    rho_ = ref.ball_volume(d) / mp.mpf(c['vol']) * mp.mpf(float(r)) ** d
    got = ref.log2_failure(m, rho_, d + 1)
    goal = mp.log(mp.mpf(c['fail']), 2)
    scale = 1 + abs(goal) + mp.log(ref.ss_sum(m, d + 1), 2)
    require(abs(got - goal) <= 1e-9 * d * scale, 'the failure bound at the net radius %r for %d samples is 2^%.12f, not the '
            'requested 2^%.12f', float(r), m, float(got), float(goal))
    fwd = float(bound.compute_sauer_shelah_bound_log2(m, float(rho_), d + 1))
    require(abs(fwd - goal) <= 1e-9 * d * scale, 'the code\'s own failure bound at the net radius is 2^%.12f, requested '
            '2^%.12f', fwd, float(goal))
    ctx.nt(d > 1 and c['vol'] != 1.0)


SUBS = [Sub('forms', forms, run_forms, quick=6000, thorough=80000),
        Sub('inversion', inversions(), run_inverse, quick=6000, thorough=80000)]
