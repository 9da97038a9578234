import math
import numpy as np
from vdoubles_base import unsupported

def gamma(x):
    try:
        return np.float64(math.gamma(float(x)))
    except OverflowError:
        return np.float64(np.inf)

def gammaln(x):
    return np.float64(math.lgamma(float(x)))

def comb(n, k, exact=False, repetition=False):
    if repetition:
        raise ValueError('repetition')
    if k < 0 or k > n:
        return 0 if exact else np.float64(0)
    v = math.comb(int(n), int(k))
    return v if exact else np.float64(v)

__getattr__ = unsupported('scipy.special')
