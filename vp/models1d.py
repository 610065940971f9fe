"""A family of 1D state-space models given twice: for JAX (callbacks for the code under test) and for mpmath (reference)."""
import math
import jax
import jax.numpy as jnp
import jax.scipy.special
import mpmath as mp
import numpy as np
from hypothesis import strategies as st
from .core import q, qpos, vec, Inconclusive
from . import oracles as o

MAXM = 20
_D = [1, 0]
for _k in range(2, MAXM):
    _D.append((_k - 1) * (_D[_k - 1] + _D[_k - 2]))
NOISE_MP = [[mp.mpf(0) if k % 2 else mp.fac2(k - 1) for k in range(MAXM)],  # Normal
            [mp.mpf(0) if k % 2 else mp.mpf(3) ** (k // 2) / (k + 1) for k in range(MAXM)],  # uniform
            [mp.mpf(v) for v in _D],  # centred exponential
            [mp.mpf(0) if k % 2 else mp.mpf(1) for k in range(MAXM)]]  # two-point
NOISE = jnp.asarray(np.array([[float(v) for v in r] for r in NOISE_MP]))
BIN = jnp.asarray(np.array([[math.comb(n, k) if k <= n else 0 for k in range(MAXM)] for n in range(MAXM)], dtype=float))

LIKS = ['gauss', 'bernoulli', 'poisson', 'cauchy', 'cosine', 'flat']


@st.composite
def model(draw, contractive=False):
    return dict(a0=draw(q(-1, 1, 32)), a1=draw(q(-1.2, 1.2, 32)), a2=draw(q(-1, 1, 32)),
                v0=draw(qpos(0.1, 1.5, 32)), v1=draw(q(0, 1, 16)), noise=draw(st.integers(0, 3)),
                lik=draw(st.integers(0, 5)), h0=draw(q(-1, 1, 16)), h1=draw(q(-1.5, 1.5, 16)), r=draw(qpos(0.3, 2, 16)))


def measurement(draw, m, vecy):
    if vecy:  # 1: a vector of two, 2: a two-by-two matrix
        return [[draw(q(-3, 3, 16)) for _ in range(2)] for _ in range(2)] if vecy == 2 else [draw(q(-3, 3, 16)), draw(q(-3, 3, 16))]
    if m['lik'] in (1,):
        return float(draw(st.integers(0, 1)))
    if m['lik'] in (2,):
        return float(draw(st.integers(0, 4)))
    if draw(st.integers(0, 7)) == 0:  # an outlier
        return draw(st.sampled_from([-1., 1.])) * draw(q(4, 30, 4))
    return draw(q(-3, 3, 16))


def pack(m):
    return jnp.asarray([m['a0'], m['a1'], m['a2'], m['v0'], m['v1'], m['h0'], m['h1'], m['r']]), \
        jnp.asarray([m['noise'], m['lik']])


# ---------------------------------------------------------------- JAX side
def jx_mean(p, x):
    return p[0] + p[1] * x + p[2] * jnp.sin(x)


def jx_var(p, x):
    return p[3] + p[4] * x ** 2 / (1 + x ** 2)


def jx_cond(p, idx, x, n, c, s, nm):
    """(nodes, ), (orders, ) -> (nodes, orders) moments about c at scale s."""
    j = jnp.arange(nm)
    a = ((jx_mean(p, x) - c) / s)[:, None] ** j
    b = (jnp.sqrt(jx_var(p, x)) / s)[:, None] ** j * NOISE[idx[0], :nm]
    k = jnp.arange(nm)
    tab = jnp.stack([jnp.sum(BIN[i, :i + 1] * a[:, i - k[:i + 1]] * b[:, :i + 1], axis=1) for i in range(nm)], axis=1)
    return tab[:, n]


def jx_lik(p, idx, y, x, vecy=False):
    h0, h1, r = p[5], p[6], p[7]
    if vecy:
        y0, y1, y2 = (y[0, 0], y[0, 1] - y[1, 0], y[1, 1]) if vecy == 2 else (y[0], y[1], 0.)
        return jnp.exp(-0.5 * ((y0 - h0 - h1 * x) / r) ** 2) / (r * math.sqrt(2 * math.pi)) \
            * (1 + 0.5 * jnp.cos(y1 - (1 + y2) * x))
    eta = h0 + h1 * x
    g = jnp.exp(-0.5 * ((y - eta) / r) ** 2) / (r * math.sqrt(2 * math.pi))
    pr = 1 / (1 + jnp.exp(-eta))
    b = jnp.where(y > 0.5, pr, 1 - pr)
    lam = jnp.log(1. + jnp.exp(eta)) + 0.05
    po = jnp.exp(y * jnp.log(lam) - lam - jax.scipy.special.gammaln(jnp.abs(y) + 1.))
    ca = 1 / (math.pi * r * (1 + ((y - eta) / r) ** 2))
    co = 1 + 0.75 * jnp.cos(y - eta)
    return jnp.stack([g, b, po, ca, co, 0.7 + 0. * g])[idx[1]]


# ---------------------------------------------------------------- mpmath side
class MPModel:
    def __init__(self, m):
        self.m = {k: (mp.mpf(v) if isinstance(v, float) else v) for k, v in m.items()}

    def mean(self, x):
        m = self.m
        return m['a0'] + m['a1'] * x + m['a2'] * mp.sin(x)

    def var(self, x):
        m = self.m
        return m['v0'] + m['v1'] * x ** 2 / (1 + x ** 2)

    def cond(self, x, n, c, s):
        mu, sd = (self.mean(x) - c) / s, mp.sqrt(self.var(x)) / s
        t = NOISE_MP[self.m['noise']]
        return mp.fsum([math.comb(n, k) * mu ** (n - k) * sd ** k * t[k] for k in range(n + 1)])

    def lik(self, y, x):
        m = self.m
        h0, h1, r = m['h0'], m['h1'], m['r']
        eta = h0 + h1 * x
        if isinstance(y, (list, tuple)):
            y0, y1, y2 = (y[0][0], y[0][1] - y[1][0], y[1][1]) if isinstance(y[0], (list, tuple)) else (y[0], y[1], 0.)
            return mp.exp(-((y0 - eta) / r) ** 2 / 2) / (r * mp.sqrt(2 * mp.pi)) * (1 + mp.cos(y1 - (1 + mp.mpf(y2)) * x) / 2)
        k = m['lik']
        y = mp.mpf(y)
        if k == 0:
            return mp.exp(-((y - eta) / r) ** 2 / 2) / (r * mp.sqrt(2 * mp.pi))
        if k == 1:
            pr = 1 / (1 + mp.exp(-eta))
            return pr if y > 0.5 else 1 - pr
        if k == 2:
            lam = mp.log(1 + mp.exp(eta)) + mp.mpf(0.05)
            return mp.exp(y * mp.log(lam) - lam - mp.loggamma(y + 1))
        if k == 3:
            return 1 / (mp.pi * r * (1 + ((y - eta) / r) ** 2))
        if k == 4:
            return 1 + mp.mpf(0.75) * mp.cos(y - eta)
        return mp.mpf(0.7)


def ref_filter(model, rms0, ys, nm, mode='raw', kappas=None):
    """Reference moment filter; `mode` is the representation carried between steps (matters only at low precision).

    Returns, per time: raw-moment rule after the update as (weights, nodes), i.e. the posterior as a discrete measure, and the
    cumulative negative log likelihood."""
    n = nm // 2

    def rule(ms, c, s):
        if kappas is not None:
            kappas.append(o.hankel_cond(ms, n))
        try:
            w, x = o.gauss_rule_mp(ms, n)
        except (ValueError, ZeroDivisionError):
            raise Inconclusive('moment matrix not positive definite at this precision')
        return w, [c + s * v for v in x]

    c, s = mp.mpf(0), mp.mpf(1)
    ms = [mp.mpf(v) for v in rms0]
    if mode != 'raw':
        c = ms[1]
        if mode == 'scaled':
            s = mp.sqrt(ms[2] - ms[1] ** 2)
        ms = o.shift_scale_mp(ms, c, s)
    nell = mp.mpf(0)
    out = []
    for y in ys:
        w, x = rule(ms, c, s)
        if mode != 'raw':
            c = mp.fsum([a * model.mean(b) for a, b in zip(w, x)])
            if mode == 'scaled':
                s = mp.sqrt(mp.fsum([a * model.var(b) for a, b in zip(w, x)]))
        ms = [mp.fsum([a * model.cond(b, k, c, s) for a, b in zip(w, x)]) for k in range(nm)]
        w, x = rule(ms, c, s)
        lw = [a * model.lik(y, b) for a, b in zip(w, x)]
        pdf = mp.fsum(lw)
        if pdf <= mp.mpf(10) ** -250:
            raise Inconclusive('likelihood underflow')
        nell -= mp.log(pdf)
        w = [v / pdf for v in lw]
        if mode != 'raw':
            c = mp.fsum([a * b for a, b in zip(w, x)])
            if mode == 'scaled':
                s = mp.sqrt(mp.fsum([a * (b - c) ** 2 for a, b in zip(w, x)]))
        ms = [mp.fsum([a * ((b - c) / s) ** k for a, b in zip(w, x)]) for k in range(nm)]
        out.append((w, x, nell))
    return out


def summary(out, nm):
    """Posterior summaries in double: raw moments, mean, central moments, std, scaled moments (all (T, nm) / (T, )) and sizes."""
    r = dict(rms=[], cms=[], scms=[], mean=[], std=[], nell=[], arms=[], acms=[], ascms=[])
    for w, x, nell in out:
        mean = mp.fsum([a * b for a, b in zip(w, x)])
        var = mp.fsum([a * (b - mean) ** 2 for a, b in zip(w, x)])
        sd = mp.sqrt(var)
        if len(x) > 1 and sd < mp.mpf(10) ** -6:
            raise Inconclusive('degenerate posterior')
        sdd = sd if sd > 0 else mp.mpf(1)
        for k, c, s in (('rms', 0, 1), ('cms', mean, 1), ('scms', mean, sdd)):
            r[k].append([float(mp.fsum([a * ((b - c) / s) ** i for a, b in zip(w, x)])) for i in range(nm)])
            r['a' + k].append([float(mp.fsum([abs(a) * abs((b - c) / s) ** i for a, b in zip(w, x)])) for i in range(nm)])
        r['mean'].append(float(mean)), r['std'].append(float(sd)), r['nell'].append(float(nell))
    return {k: np.array(v) for k, v in r.items()}


def reference(m, rms0, ys, nm, mode):
    """Exact summary and a measured double-precision error level (relative to absolute moments)."""
    mm = MPModel(m)
    ex = summary(ref_filter(mm, rms0, ys, nm), nm)
    kappas = []
    with mp.workprec(53):
        lo = summary(ref_filter(mm, rms0, ys, nm, mode, kappas), nm)
    if max(kappas) > 1e11:
        raise Inconclusive('moment matrix close to singular')
    err = 1e-17 * max(kappas)
    for k in ('rms', 'cms', 'scms'):
        err = max(err, float(np.max(np.abs(lo[k] - ex[k]) / (ex['a' + k] + 1e-12))))
    sc = np.maximum(ex['std'], 1e-12) if nm > 3 else 1.
    err = max(err, float(np.max(np.abs(lo['mean'] - ex['mean']) / sc)), float(np.max(np.abs(lo['nell'] - ex['nell']))))
    return ex, err


class Affine:
    """The model of alpha X + beta."""

    def __init__(self, base, alpha, beta):
        self.b, self.al, self.be = base, mp.mpf(alpha), mp.mpf(beta)

    def mean(self, x):
        return self.al * self.b.mean((x - self.be) / self.al) + self.be

    def var(self, x):
        return self.al ** 2 * self.b.var((x - self.be) / self.al)

    def cond(self, x, n, c, s):
        return self.b.cond((x - self.be) / self.al, n, (c - self.be) / self.al, s / self.al)

    def lik(self, y, x):
        return self.b.lik(y, (x - self.be) / self.al)


def error_level(ex, model, raw0, ys, nm, mode):
    """Double-precision error of the recursion carried in `mode`, relative to absolute moments of the exact summary `ex`."""
    kappas = []
    with mp.workprec(53):
        lo = summary(ref_filter(model, raw0, ys, nm, mode, kappas), nm)
    if max(kappas) > 1e11:
        raise Inconclusive('moment matrix close to singular')
    err = 1e-16 * max(kappas)
    for k in ('rms', 'cms', 'scms'):
        err = max(err, float(np.max(np.abs(lo[k] - ex[k]) / (ex['a' + k] + 1e-12))))
    sc = np.maximum(ex['std'], 1e-12) if nm > 3 else 1.
    return max(err, float(np.max(np.abs(lo['mean'] - ex['mean']) / sc)), float(np.max(np.abs(lo['nell'] - ex['nell']))))
