from ..core import *
from .. import oracles as o, gen
import jax
import jax.numpy as jnp
import mpmath as mp
from functools import partial
from mfs.one_dim.pdf_approximations import gram_charlier, legendre_poly_expansion

PROP = Prop('C24', rule='Gram-Charlier: order >= 3 with a non-zero higher cumulant; Legendre: at least three moments and an interval '
                        'other than [-1, 1] or a non-uniform distribution',
            assumptions=['double precision (jax x64) is enabled'])


def moments_from_cumulants(k):
    m = [1.]
    for n in range(1, len(k) + 1):
        m.append(sum(math.comb(n - 1, j - 1) * k[j - 1] * m[n - j] for j in range(1, n + 1)))
    return m


@st.composite
def gc_case(draw):
    order = draw(st.integers(2, 8))
    kind = draw(st.sampled_from(['free', 'dist', 'normal']))
    return dict(order=order, kind=kind, mean=draw(q(-4, 4, 16)), var=draw(qpos(0.1, 4, 16)), hi=draw(vec(q(-2, 2, 16), order - 2)),
                dist=draw(gen.dist1d(3)), shape=draw(st.sampled_from([(1,), (5,), (2, 3)])), x=draw(vec(q(-4, 4, 16), 6)))


@partial(jax.jit)
def _gc(cum, x):
    return gram_charlier(cum)(x)


@PROP.sub('gram_charlier', gc_case(), quick=260, shards=4)
def gc(c, ctx):
    order = c['order']
    if c['kind'] == 'dist':
        k = o.tofloat(o.cumulants_exact(gen.normalise(gen.moments1d(c['dist'], order + 1))))
    else:
        k = np.array([c['mean'], c['var']] + (c['hi'] if c['kind'] == 'free' else [0.] * (order - 2)))
    if k[1] < 1e-3:
        ctx.inconclusive('degenerate')
    ctx.label(f'order={order}', c['kind'], f'batch {len(c["shape"])}d')
    ctx.nt(order >= 3 and np.any(k[2:] != 0))
    mean, sd = k[0], math.sqrt(k[1])
    # standardised moments from the cumulants and the Hermite coefficients E[He_j(Z)] / j!
    z = moments_from_cumulants([0., 1.] + [k[i] / sd ** (i + 1) for i in range(2, order)])
    za = moments_from_cumulants([0., 1.] + [abs(k[i]) / sd ** (i + 1) for i in range(2, order)])
    he = [np.array(o.hermite_he(j), dtype=float) for j in range(order + 1)]
    co = [sum(he[j][i] * z[i] for i in range(j + 1)) / math.factorial(j) for j in range(order + 1)]
    ca = [sum(abs(he[j][i]) * za[i] for i in range(j + 1)) / math.factorial(j) for j in range(order + 1)]
    n = int(np.prod(c['shape']))
    h = np.array(c['x'][:n])
    xs = mean + sd * h
    phi = np.exp(-h ** 2 / 2) / math.sqrt(2 * math.pi) / sd
    ex = phi * sum(co[j] * np.polyval(he[j][::-1], h) for j in range(order + 1))
    size = phi * sum(ca[j] * np.polyval(np.abs(he[j][::-1]), np.abs(h)) for j in range(order + 1))
    got = ctx.call('gram_charlier', _gc, jnp.asarray(k), jnp.asarray(xs.reshape(c['shape'])))
    rel = 1e-11 * (1 + abs(mean) / sd)
    ctx.close(got, ex.reshape(c['shape']), 'Gram-Charlier density', tol=rel * size.reshape(c['shape']) + 1e-300)
    if c['kind'] == 'normal':
        ctx.close(np.asarray(got).ravel(), phi, 'Normal density for Normal cumulants', tol=1e-10 * (1 + abs(mean) / sd) * phi + 1e-300)
    # moments by a quadrature that is exact for polynomial x Gaussian
    u, w = np.polynomial.hermite_e.hermegauss(24)
    w = w / np.sum(w)
    vals = np.asarray(ctx.call('gram_charlier', _gc, jnp.asarray(k), jnp.asarray(mean + sd * u)))
    r = vals * sd * math.sqrt(2 * math.pi) * np.exp(u ** 2 / 2)
    ra = sum(ca[j] * np.polyval(np.abs(he[j][::-1]), np.abs(u)) for j in range(order + 1))
    for i in range(order + 1):
        ctx.close(np.sum(w * r * u ** i), z[i], f'standardised moment {i} of the series', tol=1e-9 * (1 + abs(mean) / sd) * np.sum(w * ra * np.abs(u) ** i))


@st.composite
def leg_case(draw):
    num = draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(9, 14)))
    dflt = draw(st.integers(0, 3)) == 0
    a = -1. if dflt else draw(q(-4, 4, 16))
    return dict(num=num, default=dflt, a=a, b=1. if dflt else a + draw(qpos(0.25, 5, 16)), kind=draw(st.sampled_from(['atoms', 'poly', 'free'])),
                t=draw(vec(q(0, 1, 32), 5)), w=draw(simplex(5)), free=draw(vec(q(-2, 2, 16), num)), pc=draw(vec(q(0, 2, 8), num)),
                shape=draw(st.sampled_from([(1,), (6,), (2, 3)])), x=draw(vec(q(0, 1, 32), 6)))


@partial(jax.jit)
def _leg(rms, a, b, x):
    return legendre_poly_expansion(rms, a, b)(x)


@PROP.sub('legendre', leg_case(), quick=260, shards=4)
def leg(c, ctx):
    num, a, b = c['num'], c['a'], c['b']
    A, B = mp.mpf(a), mp.mpf(b)
    poly = None
    if c['kind'] == 'atoms':
        xs = [A + (B - A) * mp.mpf(t) for t in c['t']]
        s = mp.fsum(c['w'])
        rms = [mp.fsum([mp.mpf(w) / s * x ** k for w, x in zip(c['w'], xs)]) for k in range(num)]
    elif c['kind'] == 'poly':  # density sum_i pc_i u^i on u = (x - a) / (b - a), degree < num
        pc = [mp.mpf(v) for v in c['pc']]
        pc[0] += mp.mpf('0.1')
        z = mp.fsum([p / (i + 1) for i, p in enumerate(pc)])
        pc = [p / z for p in pc]
        um = [mp.fsum([p / (i + k + 1) for i, p in enumerate(pc)]) for k in range(num)]
        rms = [mp.fsum([math.comb(k, j) * A ** (k - j) * (B - A) ** j * um[j] for j in range(k + 1)]) for k in range(num)]
        poly = pc
    else:
        rms = [mp.mpf(v) for v in [1.] + c['free'][1:]]
    f = o.tofloat(rms)
    ctx.label(f'num={num}', c['kind'], 'default interval' if c['default'] else 'interval')
    ctx.nt(num >= 3 and (not c['default'] or c['kind'] != 'free'))
    shape = c['shape']
    xs = (a + (b - a) * np.array(c['x'][:int(np.prod(shape))])).reshape(shape)
    if c['default']:
        got = ctx.call('legendre', lambda: legendre_poly_expansion(jnp.asarray(f))(jnp.asarray(xs)))
    else:
        got = ctx.call('legendre', _leg, jnp.asarray(f), a, b, jnp.asarray(xs))
    got = ctx.arr(got, shape, 'Legendre density')
    # size of the terms: binomial expansion to the unit interval, then Legendre coefficients
    sh, sc = -(a + b) / (b - a), 2 / (b - a)
    um = [float(sum(math.comb(n, k) * mp.mpf(sc) ** k * mp.mpf(sh) ** (n - k) * mp.mpf(f[k]) for k in range(n + 1))) for n in range(num)]
    ua = [sum(math.comb(n, k) * sc ** k * abs(sh) ** (n - k) * abs(f[k]) for k in range(n + 1)) for n in range(num)]
    P = [np.polynomial.legendre.leg2poly([0] * k + [1]) for k in range(num)]
    co = [(2 * k + 1) / 2 * sum(P[k][i] * um[i] for i in range(k + 1)) for k in range(num)]
    ca = [(2 * k + 1) / 2 * sum(abs(P[k][i]) * ua[i] for i in range(k + 1)) for k in range(num)]
    t = (2 * xs - a - b) / (b - a)
    ex = sc * sum(co[k] * np.polynomial.legendre.legval(t, [0] * k + [1]) for k in range(num))
    size = sc * sum(ca[k] * np.sum(np.abs(P[k])) for k in range(num))
    ctx.close(got, ex, 'Legendre series', tol=1e-12 * num * size)
    if poly is not None:
        u = (xs - a) / (b - a)
        ctx.close(got, sum(float(p) * u ** i for i, p in enumerate(poly)) / (b - a), 'polynomial density recovered', tol=1e-11 * num * size)
    g, w = np.polynomial.legendre.leggauss(16)
    gx = (a + b) / 2 + (b - a) / 2 * g
    vals = np.asarray(ctx.call('legendre', _leg, jnp.asarray(f), a, b, jnp.asarray(gx)))
    for k in range(num):
        ctx.close((b - a) / 2 * np.sum(w * vals * gx ** k), f[k], f'moment {k} of the series', tol=1e-11 * num * size * (b - a) * max(abs(a), abs(b)) ** k + 1e-11 * abs(f[k]))
