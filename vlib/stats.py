"""Tail bounds for counts: a count is only rejected when it is (provably) that unlikely."""
import math

THRESHOLD = 27.0     # exp(-27) = 2e-12, per side


def kl(q, p):
    out = 0.0
    if q > 0:
        out += q * math.log(q / p) if p > 0 else math.inf
    if q < 1:
        out += (1 - q) * math.log((1 - q) / (1 - p)) if p < 1 else math.inf
    return out


def surprise(count, n, p):
    """-log of the Chernoff bound on Pr[Bin(n, p) is at least this far out]."""
    if n == 0:
        return 0.0
    return n * kl(count / n, min(max(p, 0.0), 1.0))


def likely(count, n, p):
    return surprise(count, n, p) <= THRESHOLD
