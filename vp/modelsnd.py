"""A family of multidimensional state-space models, for JAX (callbacks of the code under test) and for numpy (reference recursion)."""
import math
from functools import lru_cache
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from .core import q, qpos, vec, mat, tril, simplex, Inconclusive
from . import oracles as o

ATOMS = 7
LIKS = ['gauss', 'logit', 'cauchy', 'cosine', 'flat']


# ------------------------------------------------------------------------------------------------ models
@st.composite
def model(draw, d):
    """X' = b + A x + C sin(x) + diag(s0 + s1 x^2 / (1 + x^2)) xi, xi discrete with ATOMS atoms of a generic law."""
    return dict(d=d, A=draw(mat(q(-0.75, 0.75, 16), d, d)), C=draw(mat(q(-0.5, 0.5, 16), d, d)), b=draw(vec(q(-1, 1, 16), d)),
                s0=draw(vec(qpos(0.4, 1.25, 16), d)), s1=draw(vec(q(0, 0.5, 16), d)), nk=draw(st.integers(0, 10 ** 4)),
                lik=draw(st.integers(0, 4)), h0=draw(q(-1, 1, 16)), h=draw(vec(q(-1, 1, 16), d)), r=draw(qpos(0.75, 2, 16)))


def atoms(m):
    """Noise atoms (ATOMS, d) and probabilities; zero mean, unit-ish spread, generic (no symmetry)."""
    rng = np.random.default_rng(m['nk'])
    x = rng.normal(size=(ATOMS, m['d'])) * 1.1
    p = rng.dirichlet(4 * np.ones(ATOMS))
    return x - p @ x, p


@st.composite
def dist(draw, d):
    """Gaussian mixture prior."""
    k = draw(st.integers(1, 2))
    return dict(d=d, m=draw(mat(q(-1, 1, 16), k, d)), L=[draw(tril(d, off=0.5, lo=0.5, hi=1.25)) for _ in range(k)], w=draw(simplex(k)))


def mixture_moments(ds, mi, centre=None, scale=None):
    """Joint moments of the mixture about a centre at per-coordinate scales."""
    d = ds['d']
    c = np.zeros(d) if centre is None else np.asarray(centre)
    s = np.ones(d) if scale is None else np.asarray(scale)
    w = np.array(ds['w']) / np.sum(ds['w'])
    out = np.zeros(len(mi))
    for a, m, L in zip(w, ds['m'], ds['L']):
        L = np.array(L)
        g = o.GaussMoments(((np.array(m) - c) / s).tolist(), ((L @ L.T) / np.outer(s, s)).tolist(), 1.)
        out += a * np.array([g(n) for n in mi])
    return out


def mixture_mean_std(ds):
    w = np.array(ds['w']) / np.sum(ds['w'])
    m = np.array(ds['m'])
    mean = w @ m
    var = np.sum([a * (np.diag(np.array(L) @ np.array(L).T) + (x - mean) ** 2) for a, x, L in zip(w, m, ds['L'])], axis=0)
    return mean, np.sqrt(var)


def measurement(draw, vecy):
    y = draw(q(-2, 2, 16)) if draw(st.integers(0, 7)) else draw(st.sampled_from([-1., 1.])) * draw(q(4, 16, 4))  # sometimes an outlier
    if vecy == 2:  # a two-by-two matrix
        return [[y, draw(q(-2, 2, 16))], [draw(q(-2, 2, 16)), draw(q(-2, 2, 16))]]
    return [y, draw(q(-2, 2, 16))] if vecy else y


def params(m):
    xi, p = atoms(m)
    f = lambda k: np.array(m[k], dtype=float)
    return dict(A=f('A'), C=f('C'), b=f('b'), s0=f('s0'), s1=f('s1'), xi=xi, p=p, h0=np.float64(m['h0']), h=f('h'), r=np.float64(m['r']),
                lik=np.int64(m['lik']))


def nexts(P, x, xp):
    """(..., d) -> (..., ATOMS, d): the possible next states."""
    mu = P['b'] + x @ P['A'].T + xp.sin(x) @ P['C'].T
    s = P['s0'] + P['s1'] * x ** 2 / (1 + x ** 2)
    return mu[..., None, :] + s[..., None, :] * P['xi']


def cond_moments(P, x, mi, c, s, xp):
    """(k, d), (z, d) -> (k, z)"""
    u = (nexts(P, x, xp) - c) / s
    return xp.einsum('kaz,a->kz', xp.prod(u[:, :, None, :] ** mi, axis=-1), P['p'])


def cond_mean_var(P, x, xp):
    n = nexts(P, x, xp)
    mean = xp.einsum('kai,a->ki', n, P['p'])
    return mean, xp.einsum('kai,a->ki', (n - mean[:, None, :]) ** 2, P['p'])


def likelihood(P, y, x, xp, vecy):
    """y scalar or vector; x (d, ) -> scalar (numpy: (k, d) -> (k, ))."""
    eta = P['h0'] + x @ P['h'] + 0.25 * xp.sin(x[..., 0] * x[..., -1])
    y0, y1, y2 = (y[0][0], y[0][1] - y[1][0], y[1][1]) if vecy == 2 else ((y[0], y[1], 0.) if vecy else (y, None, None))
    g = xp.exp(-0.5 * ((y0 - eta) / P['r']) ** 2) / (P['r'] * math.sqrt(2 * math.pi))
    pr = 1 / (1 + xp.exp(-eta))
    b = xp.where(y0 > 0., pr, 1 - pr)
    ca = 1 / (math.pi * P['r'] * (1 + ((y0 - eta) / P['r']) ** 2))
    co = 1 + 0.75 * xp.cos(y0 - eta)
    v = xp.stack([g, b, ca, co, 0.7 + 0. * g])[P['lik']]
    if vecy:
        v = v * (1 + 0.5 * xp.cos(y1 - (1 + y2) * x[..., -1]))
    return v * P['mu'] if 'mu' in P else v  # mu: the unit of the measurement density


# ------------------------------------------------------------------------------------------------ reference
@lru_cache(maxsize=None)
def tables(d, N):
    basis = o.multi_indices(d, N - 1)
    allmi = o.multi_indices(d, 2 * N - 1)
    pos = {n: i for i, n in enumerate(allmi)}
    G = np.array([[pos[tuple(a + b for a, b in zip(u, v))] for v in basis] for u in basis])
    Hs = []
    for k in range(d):
        Hs.append(np.array([[pos[tuple(a + b + (1 if i == k else 0) for i, (a, b) in enumerate(zip(u, v)))] for v in basis] for u in basis]))
    return np.array(allmi), G, Hs


def rule(ms, d, N):
    """Weights (s^d, ), nodes (s^d, d) of the ND rule of the given moments, by its definition: spectral decompositions of the
    multiplication operators compressed to the polynomials of degree < N, chained in coordinate order."""
    _, G, Hs = tables(d, N)
    g = ms[G]
    try:
        L = np.linalg.cholesky(g)
    except np.linalg.LinAlgError:
        raise Inconclusive('moment matrix not positive definite')
    dg = np.sqrt(np.diag(g))
    sv = np.linalg.svd(g / dg[:, None] / dg[None, :], compute_uv=False)
    kappa = sv[0] / sv[-1]
    if kappa > 1e8:
        raise Inconclusive('moment matrix close to singular')
    Li = np.linalg.inv(L)
    eig = []
    for H in Hs:
        K = Li @ ms[H] @ Li.T
        eig.append(np.linalg.eigh((K + K.T) / 2))
    # contraction e1' U1 | U1' U2 | ... | Ud' e1
    s = L.shape[0]
    W = eig[0][1][0, :]
    for a, b in zip(eig[:-1], eig[1:]):
        W = W[..., None] * (a[1].T @ b[1])
    W = W * eig[-1][1][0, :]
    grids = np.meshgrid(*[e[0] for e in eig], indexing='ij')
    return W.reshape(-1), np.stack([t.reshape(-1) for t in grids], axis=-1), kappa


def ref_filter(P, ds_or_ms, d, N, ys, vecy, perturb=None, cond=None, cmv=None, lik=None):
    """Reference ND moment filter carried in scaled central form. Returns per step (weights, nodes, nell)."""
    mi, _, _ = tables(d, N)
    cond = cond or (lambda x, c, s: cond_moments(P, x, mi, c, s, np))
    cmv = cmv or (lambda x: cond_mean_var(P, x, np))
    lik = lik or (lambda y, x: likelihood(P, y, x, np, vecy))
    noise = (lambda ms: ms) if perturb is None else (lambda ms: ms * (1 + 1e-10 * perturb.uniform(-1, 1, size=ms.shape)) + 1e-10 * perturb.uniform(-1, 1, size=ms.shape) * (np.sum(mi, axis=1) > 0))
    ms, c, s = ds_or_ms
    nell, out = 0., []
    for y in ys:
        w, u, k1 = rule(noise(ms), d, N)
        x = c + s * u
        mean, var = cmv(x)
        c = w @ mean
        s2 = w @ (var + (mean - c) ** 2)
        if np.any(s2 <= 1e-8):
            raise Inconclusive('non-positive variance of the rule')
        s = np.sqrt(s2)
        ms = w @ cond(x, c, s)
        w, u, k2 = rule(noise(ms), d, N)
        x = c + s * u
        l = lik(y, x)
        pdf = w @ l
        if pdf <= 1e-3 * np.sum(np.abs(w) * l) or not np.isfinite(pdf):
            raise Inconclusive('likelihood of the rule not safely positive')
        nell = nell - math.log(pdf)
        w = w * l / pdf
        c = w @ x
        s2 = w @ (x - c) ** 2
        if np.any(s2 <= 1e-6):
            raise Inconclusive('non-positive variance of the rule')
        s = np.sqrt(s2)
        ms = np.array([np.sum(w * np.prod(((x - c) / s) ** n, axis=1)) for n in mi])
        out.append((w, x, nell))
    return out


def summary(out, d, N):
    mi, _, _ = tables(d, N)
    r = dict(rms=[], cms=[], scms=[], mean=[], std=[], nell=[], arms=[], acms=[], ascms=[])
    for w, x, nell in out:
        c = w @ x
        s = np.sqrt(w @ (x - c) ** 2)
        for k, cc, ss in (('rms', 0., 1.), ('cms', c, 1.), ('scms', c, s)):
            u = (x - cc) / ss
            r[k].append([np.sum(w * np.prod(u ** n, axis=1)) for n in mi])
            r['a' + k].append([np.sum(np.abs(w) * np.prod(np.abs(u) ** n, axis=1)) for n in mi])
        r['mean'].append(c), r['std'].append(s), r['nell'].append(nell)
    return {k: np.array(v) for k, v in r.items()}


def reference(P, start, d, N, ys, vecy, **kw):
    """Reference summary and the error level (relative to absolute moments) that rounding can cause, measured by perturbing
    every moment array by 1e-10 and scaling down to rounding size."""
    ex = summary(ref_filter(P, start, d, N, ys, vecy, **kw), d, N)
    err = 0.
    for seed in (1, 2):
        lo = summary(ref_filter(P, start, d, N, ys, vecy, perturb=np.random.default_rng(seed), **kw), d, N)
        for k in ('rms', 'cms', 'scms'):
            err = max(err, float(np.max(np.abs(lo[k] - ex[k]) / (ex['a' + k] + 1e-12))))
        err = max(err, float(np.max(np.abs(lo['mean'] - ex['mean']) / ex['std'])), float(np.max(np.abs(lo['std'] - ex['std']) / ex['std'])),
                  float(np.max(np.abs(lo['nell'] - ex['nell']))))
    return ex, err * 1e-5  # 1e-15 relative instead of 1e-10


def start_of(ds, d, N):
    mi, _, _ = tables(d, N)
    mean, std = mixture_mean_std(ds)
    return mixture_moments(ds, mi, mean, std), mean, std


def initial(ds, d, N, mode):
    mi, _, _ = tables(d, N)
    mean, std = mixture_mean_std(ds)
    if mode == 'raw':
        return mixture_moments(ds, mi), mean, std
    if mode == 'central':
        return mixture_moments(ds, mi, mean), mean, std
    return mixture_moments(ds, mi, mean, std), mean, std


def run_nd(mode, d, N, stable, sig, vecy, P, ms0, mean0, scale0, ys, u=1., mi=None, inds=None):
    """Call the library's filter (inside jit); u: units of the coordinates (powers of two), X -> u X."""
    from mfs.multi_dims import filtering as F
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico, generate_graded_lexico_multi_indices
    if mi is None:
        mi = generate_graded_lexico_multi_indices(d, 2 * N - 1)
        inds = gram_and_hankel_indices_graded_lexico(N, d)
    J = jnp.asarray(mi)
    get = (lambda n: n) if sig == 'multi-index' else (lambda n: J[n])
    pw = lambda n: jnp.prod((u * jnp.ones(d)) ** get(n), axis=-1)
    lik = lambda y, x: likelihood(P, y, x / u, jnp, vecy)

    def mv(x):
        m, v = cond_mean_var(P, x / u, jnp)
        return u * m, u ** 2 * v

    if mode == 'raw':
        return F.moment_filter_nd_rms((lambda x, n: cond_moments(P, x / u, get(n), 0., 1., jnp) * pw(n), sig), lik, ys, (mi, inds), ms0, stable=stable)
    if mode == 'central':
        return F.moment_filter_nd_cms((lambda x, n, c: cond_moments(P, x / u, get(n), c / u, 1., jnp) * pw(n), sig), lambda x: mv(x)[0], lik, ys,
                                      (mi, inds), ms0, mean0, stable=stable)
    return F.moment_filter_nd_scms((lambda x, n, c, s: cond_moments(P, x / u, get(n), c / u, s / u, jnp), sig), mv, lik, ys,
                                   (mi, inds), ms0, mean0, scale0, stable=stable)


_jit = jax.jit(run_nd, static_argnums=(0, 1, 2, 3, 4, 5))


def run_jit(mode, d, N, stable, sig, vecy, P, ms0, mean0, scale0, ys, u=1.):
    return _jit(mode, d, N, stable, sig, vecy, {k: jnp.asarray(v) for k, v in P.items()}, jnp.asarray(ms0), jnp.asarray(mean0), jnp.asarray(scale0), jnp.asarray(ys), jnp.asarray(u))
