import numpy as np
from vdoubles_base import unsupported

def entropy(pk, qk=None, base=None, axis=0):
    pk = np.asarray(pk, dtype=float)
    pk = pk / np.sum(pk, axis=axis, keepdims=True)
    with np.errstate(divide='ignore', invalid='ignore'):
        if qk is None:
            t = np.where(pk > 0, -pk * np.log(pk), 0.0)
        else:
            qk = np.asarray(qk, dtype=float)
            qk = qk / np.sum(qk, axis=axis, keepdims=True)
            t = np.where((pk > 0) & (qk > 0), pk * np.log(pk / qk), np.where((pk == 0) & (qk >= 0), 0.0, np.inf))
    s = np.sum(t, axis=axis)
    return s / np.log(base) if base is not None else s

__getattr__ = unsupported('scipy.stats')
