import numpy as np


def entropy(pk, qk=None, base=None, axis=0):
    pk = np.asarray(pk, dtype=float)
    pk = pk / pk.sum(axis=axis, keepdims=True)
    with np.errstate(all='ignore'):
        if qk is None:
            t = np.where(pk > 0, -pk * np.log(pk), np.where(pk == 0, 0.0, -np.inf))
        else:
            qk = np.asarray(qk, dtype=float)
            qk = qk / qk.sum(axis=axis, keepdims=True)
            t = np.where((pk > 0) & (qk > 0), pk * np.log(pk / qk), np.where((pk == 0) & (qk >= 0), 0.0, np.inf))
    s = t.sum(axis=axis)
    return s / np.log(base) if base is not None else s
