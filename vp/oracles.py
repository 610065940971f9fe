"""Independent reference computations. Nothing in here calls the code under test."""
import itertools
import math
from fractions import Fraction
from functools import lru_cache

import mpmath as mp
import numpy as np

mp.mp.dps = 60


# ---------------------------------------------------------------------------------------------- 1D moments, exact
def atom_moments_mp(ws, xs, num):
    ws, xs = [mp.mpf(w) for w in ws], [mp.mpf(x) for x in xs]
    return [mp.fsum([w * x ** k for w, x in zip(ws, xs)]) for k in range(num)]


def normal_raw_mp(mean, var, num):
    m, v = mp.mpf(mean), mp.mpf(var)
    out = [mp.mpf(1), m]
    for k in range(2, num):
        out.append(m * out[k - 1] + (k - 1) * v * out[k - 2])
    return out[:num]


def shift_scale_mp(ms, c, s):
    """Moments of (X - c) / s from raw moments of X (exact arithmetic on the given numbers)."""
    c, s = mp.mpf(c), mp.mpf(s)
    return [mp.fsum([math.comb(n, k) * ms[k] * (-c) ** (n - k) for k in range(n + 1)]) / s ** n
            for n in range(len(ms))]


def tofloat(v):
    return np.array([float(x) for x in v])


# ---------------------------------------------------------------------------------------------- 1D Gauss rule
def gauss_rule_mp(ms, n):
    """Weights and ascending nodes of the n-point Gauss rule of the moments ms[0..2n-1]."""
    G = mp.matrix(n, n)
    H = mp.matrix(n, n)
    for i in range(n):
        for j in range(n):
            G[i, j], H[i, j] = ms[i + j], ms[i + j + 1]
    L = mp.cholesky(G)
    A = _fsolve(L, H)
    K = _fsolve(L, A.T)
    K = (K + K.T) / 2
    if n == 1:
        return [ms[0]], [K[0, 0]]
    E, Q = mp.eigsy(K)
    order = sorted(range(n), key=lambda i: E[i])
    return [ms[0] * Q[0, i] ** 2 for i in order], [E[i] for i in order]


def _fsolve(L, B):
    """Forward substitution L X = B."""
    n, m = L.rows, B.cols
    X = mp.matrix(n, m)
    for j in range(m):
        for i in range(n):
            s = B[i, j]
            for k in range(i):
                s -= L[i, k] * X[k, j]
            X[i, j] = s / L[i, i]
    return X


def gauss_rule_np(ms, n):
    """Same rule in double precision (used only to measure how much accuracy double precision can deliver)."""
    G = np.array([[ms[i + j] for j in range(n)] for i in range(n)])
    H = np.array([[ms[i + j + 1] for j in range(n)] for i in range(n)])
    L = np.linalg.cholesky(G)
    K = np.linalg.solve(L, np.linalg.solve(L, H).T)
    e, v = np.linalg.eigh((K + K.T) / 2)
    return v[0] ** 2, e


def hankel_cond(ms, n):
    """Condition number of the Gram matrix scaled to unit diagonal (what bounds the error of a Cholesky solve)."""
    G = np.array([[float(ms[i + j]) for j in range(n)] for i in range(n)])
    d = np.sqrt(np.abs(np.diag(G))) + 1e-300
    s = np.linalg.svd(G / d[:, None] / d[None, :], compute_uv=False)
    return float(s[0] / max(s[-1], 1e-300))


# ---------------------------------------------------------------------------------------------- multi-indices
@lru_cache(maxsize=None)
def multi_indices(d, upper, lower=0):
    """All multi-indices lower <= |n| <= upper, sorted by (total degree, lexicographic)."""
    def rec(dim, total):
        if dim == 1:
            yield (total,)
            return
        for i in range(total + 1):
            for rest in rec(dim - 1, total - i):
                yield (i,) + rest

    out = []
    for s in range(lower, upper + 1):
        out.extend(sorted(rec(d, s)))
    return out


# ---------------------------------------------------------------------------------------------- ND Gaussian moments
class GaussMoments:
    """E[X^n], X ~ N(m, C), by the Stein recursion E[X_i g(X)] = m_i E[g] + sum_j C_ij E[d_j g]; works for any number
    type (float, mpf, Fraction)."""

    def __init__(self, mean, cov, one=1.):
        self.m, self.c, self.one, self.memo = mean, cov, one, {}

    def __call__(self, n):
        n = tuple(int(k) for k in n)
        if n in self.memo:
            return self.memo[n]
        i = next((k for k in range(len(n)) if n[k] > 0), None)
        if i is None:
            return self.one
        r = list(n)
        r[i] -= 1
        v = self.m[i] * self(tuple(r))
        for j in range(len(n)):
            if r[j] > 0:
                s = list(r)
                s[j] -= 1
                v = v + self.c[i][j] * r[j] * self(tuple(s))
        self.memo[n] = v
        return v


def gauss_moments_exact(mean, cov):
    m = [Fraction(x) for x in mean]
    c = [[Fraction(x) for x in row] for row in np.asarray(cov).tolist()]
    return GaussMoments(m, c, Fraction(1))


def gauss_abs_moments(mean, cov):
    """An upper bound of the size of the terms in E[X^n] (for tolerances)."""
    m = [abs(float(x)) for x in mean]
    c = [[abs(float(x)) for x in row] for row in np.asarray(cov).tolist()]
    return GaussMoments(m, c, 1.)


# ---------------------------------------------------------------------------------------------- Gaussian conditioning
def kalman(F, Q, H, R, m, P, ys):
    """Textbook Kalman filter (explicit inverses), returns means, covs, cumulative nll, predicted means/covs."""
    ms, Ps, ns, mps, Pps, n = [], [], [], [], [], 0.
    for y in ys:
        mp_, Pp = F @ m, F @ P @ F.T + Q
        S = H @ Pp @ H.T + R
        r = y - H @ mp_
        Si = np.linalg.inv(S)
        K = Pp @ H.T @ Si
        m = mp_ + K @ r
        P = (np.eye(len(m)) - K @ H) @ Pp @ (np.eye(len(m)) - K @ H).T + K @ R @ K.T
        n = n + 0.5 * (r @ Si @ r + np.linalg.slogdet(2 * np.pi * S)[1])
        ms.append(m), Ps.append(P), ns.append(n), mps.append(mp_), Pps.append(Pp)
    return np.array(ms), np.array(Ps), np.array(ns), np.array(mps), np.array(Pps)


def batch_gaussian(F, Q, H, R, m0, P0, ys):
    """Joint Gaussian of x_1..x_T, y_1..y_T conditioned in one go. Returns filter means/covs, cumulative nll, smoother
    means/covs."""
    T, dx, dy = len(ys), len(m0), H.shape[0]
    mean = np.zeros(T * dx)
    cov = np.zeros((T * dx, T * dx))
    m, P = m0, P0
    blocks = []
    for k in range(T):
        m, P = F @ m, F @ P @ F.T + Q
        mean[k * dx:(k + 1) * dx] = m
        blocks.append(P)
    for k in range(T):
        C = blocks[k]
        for l in range(k, T):
            cov[l * dx:(l + 1) * dx, k * dx:(k + 1) * dx] = C
            cov[k * dx:(k + 1) * dx, l * dx:(l + 1) * dx] = C.T
            C = F @ C
    HH = np.kron(np.eye(T), H)
    RR = np.kron(np.eye(T), R)
    S = HH @ cov @ HH.T + RR
    r = np.concatenate(ys) - HH @ mean
    mf, vf, nll = [], [], []
    for k in range(1, T + 1):
        a = k * dy
        Sk, rk = S[:a, :a], r[:a]
        G = np.linalg.solve(Sk, (cov @ HH.T)[(k - 1) * dx:k * dx, :a].T).T
        mf.append(mean[(k - 1) * dx:k * dx] + G @ rk)
        vf.append(blocks[k - 1] - G @ Sk @ G.T)
        nll.append(0.5 * (rk @ np.linalg.solve(Sk, rk) + np.linalg.slogdet(2 * np.pi * Sk)[1]))
    G = np.linalg.solve(S, (cov @ HH.T).T).T
    sm = mean + G @ r
    sv = cov - G @ S @ G.T
    ms = np.array([sm[k * dx:(k + 1) * dx] for k in range(T)])
    vs = np.array([sv[k * dx:(k + 1) * dx, k * dx:(k + 1) * dx] for k in range(T)])
    return np.array(mf), np.array(vf), np.array(nll), ms, vs


# ---------------------------------------------------------------------------------------------- polynomials & friends
def hermite_he(n):
    """Probabilists' Hermite coefficients, ascending, exact integers."""
    a, b = [1], [0, 1]
    if n == 0:
        return a
    for k in range(1, n):
        c = [0] + b
        for i, v in enumerate(a):
            c[i] -= k * v
        a, b = b, c
    return b


def set_partition_bell(n, k, xs):
    """Partial Bell polynomial by explicit sum over partitions of n into k parts (exact rationals)."""
    xs = [Fraction(x) for x in xs]
    total = Fraction(0)

    def rec(i, rem_n, rem_k, coeff):
        nonlocal total
        if rem_k == 0:
            if rem_n == 0:
                total += coeff
            return
        if i > rem_n:
            return
        for j in range(rem_k + 1):
            if j * i > rem_n:
                break
            if i - 1 >= len(xs):
                c = Fraction(0) if j else Fraction(1)
            else:
                c = (xs[i - 1] / math.factorial(i)) ** j / math.factorial(j)
            rec(i + 1, rem_n - j * i, rem_k - j, coeff * c)

    if n == 0 and k == 0:
        return Fraction(1)
    rec(1, n, k, Fraction(1))
    return total * math.factorial(n)


def cumulants_exact(raw):
    """Cumulants k_1.. from raw moments m_0.. by the moment recursion (exact rationals or mpf)."""
    k = []
    for n in range(1, len(raw)):
        v = raw[n]
        for j in range(1, n):
            v = v - math.comb(n - 1, j - 1) * k[j - 1] * raw[n - j]
        k.append(v)
    return k
