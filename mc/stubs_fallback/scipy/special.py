import math
import numpy as np


def _vec(f):
    def g(x):
        x = np.asarray(x)
        return f(float(x)) if x.ndim == 0 else np.vectorize(f)(x.astype(float))
    return g


gamma = _vec(math.gamma)
gammaln = _vec(math.lgamma)


def comb(N, k, exact=False, repetition=False):
    if N != int(N) or k != int(k):
        raise ValueError('non-integer arguments')
    r = math.comb(int(N), int(k)) if 0 <= k <= N else 0
    return r if exact else float(r)


def factorial(n, exact=False):
    r = math.factorial(int(n))
    return r if exact else float(r)
