from ..core import *
from .. import oracles as o, gen
import jax
import jax.numpy as jnp
import mpmath as mp
from functools import partial
from scipy.special import ndtr
from mfs.utils import GaussianSum1D, GaussianSumND

PROP = Prop('C10', rule='at least two components with different means or variances',
            assumptions=['double precision (jax x64) is enabled',
                         'sampling is judged by the Dvoretzky-Kiefer-Wolfowitz bound at failure probability 1e-12 per statistic'])


@st.composite
def mix1(draw):
    m = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.sampled_from([7, 12])))
    return dict(m=draw(vec(q(-4, 4, 16), m)), v=draw(vec(qpos(0.05, 4, 16), m)), w=draw(simplex(m)), N=draw(st.integers(1, 6)),
                x=draw(vec(q(-12, 12, 8), 5)), key=draw(st.integers(0, 2 ** 31 - 1)),
                shift=draw(st.sampled_from([0., 0., 0., 1000., -1e5, 2. ** 20])), u=draw(st.sampled_from([1., 1., 2. ** -20, 2. ** 10])))


def mixture_cdf(x, m, v, w):
    return np.sum(w * ndtr((x[:, None] - m) / np.sqrt(v)), axis=1)


def dkw(ctx, x, m, v, w, name):
    n = len(x)
    eps = math.sqrt(math.log(2e12) / (2 * n))
    xs = np.sort(x)
    F = mixture_cdf(xs, m, v, w)
    i = np.arange(1, n + 1)
    dist = max(np.max(i / n - F), np.max(F - (i - 1) / n))
    ctx.true(dist <= eps, f'{name}: empirical distribution too far from the law', distance=float(dist), bound=eps)


@PROP.sub('sum_1d', mix1(), quick=200, shards=4)
def sum1d(c, ctx):
    w = np.array(c['w']) / np.sum(c['w'])
    # far from the origin relative to its spread, and in any units
    t, u = c['shift'], c['u']
    c = dict(c, m=[(a + t) * u for a in c['m']], v=[a * u * u for a in c['v']], x=[(a + t) * u for a in c['x']])
    m, v, N = np.array(c['m']), np.array(c['v']), c['N']
    k = len(w)
    ctx.label('shifted' if t else 'near the origin', f'unit {u:.2g}')
    ctx.nt(k >= 2 and (len(set(c['m'])) > 1 or len(set(c['v'])) > 1))
    ctx.label(f'{k} components', f'N={N}')
    g = ctx.call('GaussianSum1D', GaussianSum1D.new, jnp.asarray(m), jnp.asarray(v), jnp.asarray(w), N)
    K = max(2 * N, 4)
    d = dict(kind='mix', m=c['m'], v=c['v'], w=w.tolist())
    raw = gen.moments1d(d, K)
    mean = raw[1]
    var = raw[2] - mean ** 2  # weights sum to one up to rounding
    cen = [mp.fsum([mp.mpf(a) * o.normal_raw_mp(mp.mpf(b) - mean, s, K)[i] for a, b, s in zip(w.tolist(), c['m'], c['v'])]) for i in range(K)]
    asz = np.array([float(sum(a * o.normal_raw_mp(abs(b), s, K)[i] for a, b, s in zip(w.tolist(), c['m'], c['v']))) for i in range(K)])
    csz = np.array([float(sum(a * o.normal_raw_mp(abs(b - float(mean)), s, K)[i] for a, b, s in zip(w.tolist(), c['m'], c['v']))) for i in range(K)])
    csz = csz + 1e-3 * np.maximum(abs(float(mean)), u) * np.r_[0, csz[:-1]]
    ctx.close(g.mean, float(mean), 'mean', tol=1e-13 * asz[1] + 1e-14 * u)
    ctx.close(g.variance, float(cen[2]), 'variance', tol=1e-12 * csz[2])
    ctx.close(g.rms, o.tofloat(raw)[:2 * N], 'raw moments', tol=1e-12 * asz[:2 * N])
    ctx.close(g.cms, o.tofloat(cen)[:2 * N], 'central moments', tol=1e-11 * csz[:2 * N])
    sd = math.sqrt(float(cen[2]))
    ctx.close(g.scms, (o.tofloat(cen) / sd ** np.arange(K))[:2 * N], 'scaled moments', tol=(1e-11 * csz / sd ** np.arange(K))[:2 * N])
    ctx.close(g.means, m, 'stored means', tol=0.)
    ctx.close(g.variances, v, 'stored variances', tol=0.)
    ctx.close(g.weights, w, 'stored weights', tol=0.)
    pdf = lambda x: np.sum(w * np.exp(-(x[..., None] - m) ** 2 / 2 / v) / np.sqrt(2 * math.pi * v), axis=-1)
    x = np.array(c['x'])
    ctx.close(ctx.call('pdf', g.pdf, jnp.asarray(x)), pdf(x), 'density', tol=1e-11 * pdf(x) * (1 + np.max((x[:, None] - m) ** 2 / v, axis=1)) + 1e-300)
    ctx.close(ctx.call('pdf', g.pdf, float(x[0])), pdf(x[:1]), 'density at a scalar', tol=1e-9 * pdf(x[:1]) + 1e-300)
    # density integrates to one and carries the stored moments
    s = np.sqrt(np.max(v))
    xs = np.linspace(np.min(m) - 12 * s, np.max(m) + 12 * s, 4001)
    ps = np.asarray(ctx.call('pdf', g.pdf, jnp.asarray(xs)))
    if np.min(np.sqrt(v)) > 4 * (xs[1] - xs[0]):
        dx = (np.max(m) - np.min(m) + 24 * s) / 4000
        for i in range(4):
            ctx.close(np.sum(ps * xs ** i) * dx, float(raw[i]), f'moment {i} of the density', tol=(1e-9 + 1e-14 * abs(t)) * (np.sum(ps * np.abs(xs) ** i) * dx + 1e-3 * u ** i))
    n = 4000
    key = jax.random.PRNGKey(c['key'])
    z = ctx.arr(ctx.call('sampler', g.sampler, key, n), (n,), 'samples')
    ctx.true(np.array_equal(z, np.asarray(g.sampler(key, n))), 'samples reproducible from the key')
    ctx.true(not np.array_equal(z, np.asarray(g.sampler(jax.random.PRNGKey(c['key'] + 1), n))), 'samples depend on the key')
    dkw(ctx, z, m, v, w, 'samples')
    # successive samples are independent: law of the differences
    a, b = np.meshgrid(np.arange(k), np.arange(k))
    a, b = a.ravel(), b.ravel()
    dkw(ctx, z[0::2] - z[1::2], m[a] - m[b], v[a] + v[b], w[a] * w[b], 'differences of samples')
    dkw(ctx, z[:n // 2] - z[n // 2:], m[a] - m[b], v[a] + v[b], w[a] * w[b], 'differences of distant samples')


@st.composite
def mixn(draw):
    d = draw(st.integers(1, 3))
    m = draw(st.integers(1, 3))
    up = draw(st.integers(2, {1: 7, 2: 5, 3: 3}[d]))
    return dict(d=d, m=draw(mat(q(-3, 3, 16), m, d)), L=[draw(tril(d)) for _ in range(m)], w=draw(simplex(m)), up=up, x=draw(vec(q(-6, 6, 8), d)),
                far=draw(st.sampled_from([1., 1., 10., 60.])), key=draw(st.integers(0, 2 ** 31 - 1)), perm=draw(st.booleans()), dirs=draw(mat(q(-2, 2, 8), 2, d)),
                shift=draw(st.sampled_from([0., 0., 300., -50.])), u=draw(st.sampled_from([1., 1., 2. ** -14, 2. ** 8])))


@PROP.sub('sum_nd', mixn(), quick=110, shards=4)
def sumnd(c, ctx):
    d = c['d']
    w = np.array(c['w']) / np.sum(c['w'])
    u, t = np.full(d, c['u']), c['shift']  # (Kan's formula mixes the coordinates: one unit for all)
    # any units, and far from the origin relative to the spread
    m, C = (np.array(c['m']) + t) * u, np.array([spd(L) * np.outer(u, u) for L in c['L']])
    k = len(w)
    mx = np.max(np.abs(m / u))
    ctx.label('shifted' if t else 'near the origin', 'units' if np.any(u != 1) else 'unit 1')
    ctx.nt(k >= 2)
    ctx.label(f'd={d}', f'{k} components', f'up={c["up"]}')
    mi = np.array(o.multi_indices(d, c['up']))
    if c['perm']:
        mi = mi[np.random.default_rng(c['key']).permutation(len(mi))]
    g = ctx.call('GaussianSumND', GaussianSumND.new, jnp.asarray(m), jnp.asarray(C), jnp.asarray(w), mi)
    mean = w @ m
    ctx.equal(int(g.d), d, 'dimension')
    ctx.close(g.mean, mean, 'mean', tol=1e-13 * (1 + mx) * u)
    cov = np.sum([a * (b + np.outer(x - mean, x - mean)) for a, b, x in zip(w, C, m)], axis=0)
    ctx.close(g.cov, cov, 'covariance', tol=1e-12 * (1 + mx ** 2 + np.abs(C / np.outer(u, u)).max()) * np.outer(u, u))
    sd = np.sqrt(np.diag(cov))
    for centre, got, name in ((np.zeros(d), g.rms, 'raw moments'), (mean, g.cms, 'central moments')):
        ex, size = np.zeros(len(mi)), np.zeros(len(mi))
        for a, x, cc in zip(w, m, C):
            gm, ga = o.gauss_moments_exact((x - centre).tolist(), cc), o.gauss_abs_moments(x - centre, cc)
            ex += a * np.array([float(gm(n)) for n in mi])
            size += a * np.array([ga(n) for n in mi])
        ref = np.prod((sd + (np.abs(m).max(axis=0) if name[0] == 'r' else 1e-3 * np.abs(m).max(axis=0))) ** mi, axis=1)
        ctx.close(got, ex, name, tol=1e-11 * 4. ** np.sum(mi, axis=1) * (size + 1e-2 * ref))
    x = (np.array(c['x']) * c['far'] + t) * u
    lp = []
    for a, mm, cc in zip(w, m, C):
        r = x - mm
        lp.append(math.log(a) - 0.5 * r @ np.linalg.solve(cc, r) - 0.5 * np.linalg.slogdet(2 * math.pi * cc)[1])
    lp = np.array(lp)
    ex = np.max(lp) + math.log(np.sum(np.exp(lp - np.max(lp))))
    kap = max(np.linalg.cond(cc / np.outer(u, u)) for cc in C)
    ctx.label('far tail' if ex < -700 else 'bulk')
    ctx.close(ctx.call('logpdf', g.logpdf, jnp.asarray(x)), ex, 'log density', tol=1e-12 * kap * (1 + np.max(np.abs(lp))))
    pd = math.exp(ex)
    ctx.close(ctx.call('pdf', g.pdf, jnp.asarray(x)), pd, 'density', tol=1e-12 * kap * (1 + np.max(np.abs(lp))) * pd + 1e-300)
    n = 4000
    key = jax.random.PRNGKey(c['key'])
    z = ctx.arr(ctx.call('sampler', g.sampler, key, n), (n, d), 'samples')
    ctx.true(np.array_equal(z, np.asarray(g.sampler(key, n))), 'samples reproducible from the key')
    dirs = np.vstack([np.eye(d), np.ones((1, d)), np.array([[(-1.) ** i for i in range(d)]]), np.array(c['dirs'])])
    a, b = [t.ravel() for t in np.meshgrid(np.arange(k), np.arange(k))]
    for v in dirs / u:
        if not np.any(v):
            continue
        pm, pv = m @ v, np.einsum('i,kij,j->k', v, C, v)
        dkw(ctx, z @ v, pm, pv, w, 'projected samples')
        dkw(ctx, (z[0::2] - z[1::2]) @ v, pm[a] - pm[b], pv[a] + pv[b], w[a] * w[b], 'differences of samples')
