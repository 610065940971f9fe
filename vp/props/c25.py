from ..core import *
from .. import oracles as o, gen
import jax
import jax.numpy as jnp
import mpmath as mp
from functools import partial
from mfs.one_dim.pdf_approximations import truncated_cumulant_generating_function as tcgf, saddle_point

PROP = Prop('C25', rule='at least four moments and a non-zero argument / a point off the mean',
            assumptions=['double precision (jax x64) is enabled',
                         'points where the saddle equation has nearly coinciding or nearly real roots, or no positive curvature, are inconclusive'])


@st.composite
def cgf_case(draw):
    num = draw(st.integers(2, 10))
    return dict(num=num, dist=draw(gen.dist1d(3)), z=draw(st.one_of(q(-1, 1, 32), q(-4, 4, 16))), mode=draw(st.sampled_from(['raw', 'central', 'scaled', 'any', 'free'])), free=draw(vec(q(-3, 3, 16), num)),
                s=draw(qpos(0.2, 3, 16)), dc=draw(q(-1, 1, 16)))


@jax.jit
def _tc(z, ms, mean, scale):
    return tcgf(z, ms, mean, scale)


@PROP.sub('truncated_cgf', cgf_case(), quick=500, shards=2)
def cgf(c, ctx):
    num, z = c['num'], c['z']
    raw = gen.normalise(gen.moments1d(c['dist'], max(num, 3)))
    mean, sd = float(raw[1]), math.sqrt(float(raw[2] - raw[1] ** 2))
    m, s = {'raw': (0., 1.), 'central': (mean, 1.), 'scaled': (mean, sd), 'any': (mean + c['dc'], c['s']), 'free': (c['dc'], c['s'])}[c['mode']]
    f = np.array([1.] + c['free'][1:]) if c['mode'] == 'free' else o.tofloat(o.shift_scale_mp(raw, m, s))[:num]
    t = [(mp.mpf(z) * s) ** n / mp.factorial(n) * mp.mpf(f[n]) for n in range(num)]
    tot, ab = mp.fsum(t), mp.fsum([abs(v) for v in t])
    if tot < 1e-3 * ab:
        ctx.inconclusive('truncated generating function not positive')
    ctx.label(f'num={num}', c['mode'])
    ctx.nt(num >= 4 and z != 0)
    ex = float(mp.mpf(z) * m + mp.log(tot))
    got = ctx.call('cgf', _tc, z, jnp.asarray(f), m, s)
    tol = 1e-13 * num * (float(ab / tot) + abs(z * m) + 1)
    ctx.close(got, ex, 'truncated cumulant generating function', tol=tol)
    if c['mode'] == 'raw':
        ctx.close(ctx.call('cgf', tcgf, z, jnp.asarray(f)), ex, 'default mean and scale', tol=tol)
    if c['mode'] == 'central':
        ctx.close(ctx.call('cgf', tcgf, z, jnp.asarray(f), mean), ex, 'default scale', tol=tol)


@st.composite
def der_case(draw):
    num = draw(st.integers(3, 6))
    return dict(num=num, dist=draw(gen.dist1d(3)), mode=draw(st.sampled_from(['raw', 'central', 'scaled'])))


@partial(jax.jit, static_argnums=(3,))
def _derivs(ms, mean, scale, k):
    g = lambda z: tcgf(z, ms, mean, scale)
    out = []
    for _ in range(k):
        g = jax.grad(g)
        out.append(g(1e-30))
    return jnp.stack(out)


@PROP.sub('cumulant_derivatives', der_case(), quick=120, shards=2)
def derivs(c, ctx):
    """Derivatives at zero are the cumulants, whatever the representation (truncation does not touch them)."""
    num = c['num']
    raw = gen.normalise(gen.moments1d(c['dist'], num))
    mean, sd = float(raw[1]), math.sqrt(float(raw[2] - raw[1] ** 2))
    m, s = {'raw': (0., 1.), 'central': (mean, 1.), 'scaled': (mean, sd)}[c['mode']]
    rep = o.shift_scale_mp(raw, m, s)
    f = o.tofloat(rep)
    k = o.tofloat(o.cumulants_exact(raw))
    size = np.abs(o.tofloat(o.cumulants_exact([-abs(v) * mp.mpf(s) ** i for i, v in enumerate(rep)])))
    ctx.nt(num >= 4)
    got = ctx.call('cgf derivatives', _derivs, jnp.asarray(f), m, s, num - 1)
    ctx.close(got, k, 'cumulants as derivatives at zero', tol=1e-10 * size + 1e-10 * (1 + np.abs(k)))


def constructed(num, u, key):
    """A sequence whose saddle equation at u has a given real root and, nearer to u, a given pair of complex roots; None if none is found."""
    rng = np.random.default_rng(key)
    for _ in range(300):
        d = rng.uniform(0.2, 1.5) * rng.choice([-1, 1])
        z = u + rng.uniform(-0.5, 0.5) * d + 1j * rng.choice([rng.uniform(0.002, 0.05), rng.uniform(0.05, 0.5)])
        roots = [u + d, z, z.conjugate()]
        while len(roots) < num - 1:
            if num - len(roots) >= 3 and rng.random() < 0.5:
                z = rng.uniform(-4, 4) + 1j * rng.uniform(2, 5)
                roots += [z, z.conjugate()]
            else:
                roots.append(rng.choice([-1, 1]) * rng.uniform(3, 8))
        g = np.real(np.poly(roots)[::-1])
        A, b = np.zeros((num, num)), np.zeros(num)  # unknowns p_1, ..., p_{num-1} and the factor of g in p' - u p = factor * g
        for n in range(num):
            if n + 1 < num:
                A[n, n] += n + 1
            if n == 0:
                b[0] += u
            else:
                A[n, n - 1] -= u
            A[n, num - 1] -= g[n]
        if abs(np.linalg.det(A)) < 1e-8:
            continue
        P = np.polynomial.Polynomial(np.concatenate([[1.], np.linalg.solve(A, b)[:-1]]))
        v = u + d
        if P(v) > 1e-2 and P.deriv(2)(v) / P(v) - (P.deriv()(v) / P(v)) ** 2 > 0.05 and np.max(np.abs(P.coef)) < 50:
            return P.coef * np.array([math.factorial(k) for k in range(num)])
    return None


@st.composite
def sp_case(draw):
    num = draw(st.integers(3, 10))
    free = draw(st.one_of(st.none(), vec(q(-8, 8, 8), 7)))  # any numbers standardised like moments: the formula is one of the given sequence
    return dict(num=num, free=free, near=draw(st.one_of(st.none(), st.none(), st.integers(0, 99999))), dist=draw(gen.dist1d(4, kinds=('atoms', 'mix', 'normal', 'uniform', 'expo'))), u=draw(q(-1.5, 1.5, 32)),
                a=draw(q(-4, 4, 16)), b=draw(qpos(0.2, 4, 16)), shape=draw(st.sampled_from([(1,), (3,), (2, 2)])))


@jax.jit
def _sp(sms, mean, scale, x):
    return saddle_point(sms, mean, scale)(x)


@PROP.sub('saddle_point', sp_case(), quick=480, shards=4)
def sp(c, ctx):
    num, u = c['num'], c['u']
    raw = gen.normalise(gen.moments1d(c['dist'], num))
    mean, sd = float(raw[1]), math.sqrt(float(raw[2] - raw[1] ** 2))
    f = o.tofloat(o.shift_scale_mp(raw, mean, sd))
    f[np.abs(f) < 1e-12] = 0.  # exact symmetry
    if c.get('free'):
        f = np.array(([1., 0., 1.] + [a * 2. ** i for i, a in enumerate(c['free'])])[:num])
    if c.get('near') is not None and 4 <= num <= 7 and u != 0:
        g = constructed(num, u, c['near'])
        if g is not None:
            f = g
            ctx.label('complex pair nearer than the real root')
    co = [mp.mpf(f[n]) / mp.factorial(n) for n in range(num)]
    # K'(z) = x  <=>  p'(v) - u p(v) = 0 with v = z * scale
    d = [(n + 1) * co[n + 1] if n + 1 < num else mp.mpf(0) for n in range(num)]
    eq = [d[n] - mp.mpf(u) * co[n] for n in range(num)]
    while eq and abs(eq[-1]) == 0:
        eq.pop()
    if len(eq) < 2:
        ctx.inconclusive('constant saddle equation')
    if abs(eq[-1]) < 1e-9 * max(abs(v) for v in eq):
        ctx.inconclusive('nearly vanishing leading coefficient')
    roots = mp.polyroots(eq[::-1], maxsteps=400, extraprec=600) if len(eq) > 2 else [-eq[0] / eq[1]]
    for r in roots:
        if mp.mpf(10) ** -25 < abs(mp.im(r)) < mp.mpf(10) ** -3:
            ctx.inconclusive('nearly real root')
    real = sorted([mp.re(r) for r in roots if abs(mp.im(r)) <= mp.mpf(10) ** -25], key=lambda v: abs(v - mp.mpf(u)))
    if not real:
        ctx.inconclusive('no real saddle')
    if len(real) > 1 and abs(abs(real[1] - u) - abs(real[0] - u)) < 1e-3:
        ctx.inconclusive('ambiguous saddle')
    v = real[0]
    P = lambda k: mp.fsum([co[n] * mp.ff(n, k) * v ** (n - k) for n in range(k, num)])
    p0, p1, p2 = P(0), P(1), P(2)
    if p0 <= 1e-3:
        ctx.inconclusive('truncated generating function not positive')
    k2 = p2 / p0 - (p1 / p0) ** 2  # K''(z) / scale^2
    if k2 < 1e-2:
        ctx.inconclusive('no positive curvature')
    dens = mp.exp(mp.log(p0) - v * u) / mp.sqrt(2 * mp.pi * k2) / sd
    # condition of the root, and derivative of the root equation
    dq = mp.fsum([n * eq[n] * v ** (n - 1) for n in range(1, len(eq))])
    qa = mp.fsum([abs(eq[n]) * abs(v) ** n for n in range(len(eq))])
    near = min([abs(r - v) for r in roots if r is not v and abs(r - v) > 0] or [mp.mpf(1)])
    cond = float(qa / abs(dq) / max(min(near, 1), mp.mpf(10) ** -6))
    big = float(max(abs(r) for r in roots))
    tol = 1e-11 * (1 + cond) * (1 + big) ** 2
    if tol > 1e-5:
        ctx.inconclusive('ill-conditioned root')
    ctx.label(f'num={num}', c['dist']['kind'])
    ctx.nt(num >= 4 and u != 0)
    a, b = c['a'], c['b']
    n = int(np.prod(c['shape']))
    for mm, ss in ((mean, sd), (a + b * mean, b * sd)):
        x = mm + ss * u
        if abs((x - mm) / ss - u) > 1e-12:
            continue
        got = ctx.call('saddle_point', _sp, jnp.asarray(f), mm, ss, jnp.full(c['shape'], x) if len(c['shape']) == 1 else jnp.full((n,), x))
        ex = float(dens) * sd / ss
        ctx.close(got, np.full((n,) if len(c['shape']) > 1 else c['shape'], ex), 'saddle point density', tol=(tol + 1e-11 * abs(mm) / ss) * 10 * ex)


@PROP.sub('saddle_normal', st.fixed_dictionaries(dict(m=q(-3, 3, 16), s=qpos(0.2, 3, 16), u=vec(q(-1, 1, 32), 4))), quick=60, shards=1)
def saddle_normal(c, ctx):
    """Normal moments of growing order: the density approaches the Normal one near the mean."""
    u = np.array(c['u'])
    x = c['m'] + c['s'] * u
    ex = np.exp(-0.5 * u ** 2) / math.sqrt(2 * math.pi) / c['s']
    ctx.nt(np.any(u != 0))
    for num, t in ((6, 0.35), (10, 1e-2), (14, 2e-4)):
        sms = np.array([0. if k % 2 else float(mp.fac2(k - 1)) for k in range(num)])
        got = ctx.call('saddle_point', _sp, jnp.asarray(sms), c['m'], c['s'], jnp.asarray(x))
        ctx.close(got, ex, f'Normal density from {num} moments', tol=t * ex)
