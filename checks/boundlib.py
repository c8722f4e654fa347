"""Exact oracles for the bounds (mpmath, 60 digits)."""
import functools, math
import mpmath as mp

mp.mp.dps = 60


@functools.lru_cache(None)
def unit_ball(d):
    return mp.pi ** (mp.mpf(d) / 2) / mp.gamma(mp.mpf(d) / 2 + 1)


def alpha(tol):
    if tol is None:
        return mp.mpf(1)
    t = mp.mpf(tol)
    return t / mp.sqrt(1 + t * t)


def rho(clearance, tol, dim, vol):
    return unit_ball(dim) * (alpha(tol) * mp.mpf(clearance)) ** dim / mp.mpf(vol)


def comb_sum(m, top):
    s, c = 0, 1
    for i in range(top + 1):
        s += c
        c = c * (2 * m - i) // (i + 1)
    return s


def ss_log2(m, r, dim):
    """log2 of the Sauer-Shelah failure bound with m samples"""
    return mp.log(comb_sum(m, dim + 1), 2) - r * m / 2 + 1


def net_radius(dim, m, prob, vol):
    m = int(m)
    r = (mp.log(comb_sum(m, dim + 1), 2) + 1 - mp.log(mp.mpf(prob), 2)) * 2 / m
    return (r / (unit_ball(dim) / mp.mpf(vol))) ** (mp.mpf(1) / dim)


def log_union_tail(m, k, p):
    """log(m * P(Bin(m - 1, p) >= k)), exact"""
    n = m - 1
    p = mp.mpf(p)
    if p > 1:
        p = mp.mpf(1)
    if k <= 0:
        return mp.log(m)
    if k > n or p == 0:
        return -mp.inf
    if p == 1:
        return mp.log(m)
    term = mp.binomial(n, k) * p ** k * (1 - p) ** (n - k)
    s, q = mp.mpf(0), p / (1 - p)
    for j in range(k, n + 1):
        s += term
        term = term * (n - j) / (j + 1) * q
        if term < s * mp.mpf(10) ** -50:
            break
    return mp.log(m) + mp.log(s)
