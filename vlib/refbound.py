"""High-precision reference values for the sample-complexity bounds."""
import math
from fractions import Fraction
import mpmath as mp

mp.mp.dps = 60


def ball_volume(d):
    return mp.pi ** (mp.mpf(d) / 2) / mp.gamma(mp.mpf(d) / 2 + 1)


def alpha(tol):
    return mp.mpf(1) if tol is None else mp.mpf(tol) / mp.sqrt(1 + mp.mpf(tol) ** 2)


def rho(clearance, tol, d, vol):
    return ball_volume(d) / mp.mpf(vol) * (alpha(tol) * mp.mpf(clearance)) ** d


def ss_sum(m, vc):
    return sum(math.comb(2 * int(m), i) for i in range(vc + 1))


def log2_failure(m, rho_, vc):
    """log2 of 2 * ss_sum * 2^(-rho m / 2)."""
    return mp.log(mp.mpf(ss_sum(m, vc)), 2) + 1 - mp.mpf(rho_) * int(m) / 2


def log_binom_tail(n, p, k):
    """log Pr[Bin(n, p) >= k], exactly enough (double precision log-sum-exp)."""
    if k <= 0:
        return 0.0
    if p >= 1:
        return 0.0 if k <= n else -math.inf
    if k > n or p <= 0:
        return -math.inf
    import numpy as np
    from scipy.special import gammaln, logsumexp
    j = np.arange(k, n + 1)
    t = gammaln(n + 1) - gammaln(j + 1) - gammaln(n - j + 1) + j * math.log(p) + (n - j) * math.log1p(-p)
    return min(float(logsumexp(t)), 0.0)


__all__ = ['Fraction', 'mp', 'ball_volume', 'alpha', 'rho', 'ss_sum', 'log2_failure', 'log_binom_tail']
