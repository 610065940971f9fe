from ..core import *
from .. import oracles as o, gen
import jax
import jax.numpy as jnp
import mpmath as mp
from functools import partial
from mfs.one_dim.moments import characteristic_fn, characteristic_from_pdf
from mfs.one_dim.quadtures import taylor_quadrature
from mfs.one_dim.pdf_approximations import inverse_fourier

PROP = Prop('C02', rule='at least two nodes and z != 0 (characteristic function); expansion order >= 2 and a non-constant integrand '
                        '(Taylor); a non-zero frequency or point (transforms)',
            assumptions=['double precision (jax x64) is enabled', 'ill-conditioned moment matrices are inconclusive'])


@partial(jax.jit, static_argnums=(4,))
def _cf(z, ms, mean, scale, kind):
    if kind == 0:
        return characteristic_fn(z, ms)
    if kind == 1:
        return characteristic_fn(z, ms, mean)
    return characteristic_fn(z, ms, mean, scale)


@st.composite
def cf_case(draw):
    n = draw(st.integers(1, 6))
    return dict(n=n, dist=draw(gen.dist1d(n)), mode=draw(st.sampled_from(['raw', 'central', 'scaled', 'any'])),
                s=draw(qpos(0.1, 5, 32)), dc=draw(q(-1, 1, 16)), z=draw(q(-8, 8, 32)), shift=draw(q(-10, 10, 8)), jit=draw(st.booleans()),
                zero=draw(st.integers(0, 3)) == 0, zoom=draw(st.sampled_from([1., 1., 2. ** -12, 2. ** 10])))


@PROP.sub('characteristic_fn', cf_case(), quick=600, shards=3)
def cf(c, ctx):
    n, z = c['n'], c['z']
    ms = gen.normalise(gen.moments1d(c['dist'], max(2 * n, 3)))
    if c['mode'] != 'raw':
        ms = o.shift_scale_mp(ms, ms[1] if c['zero'] else -mp.mpf(c['shift']), 1)
    zoom = c['zoom']  # other units: X -> zoom * X, z -> z / zoom
    ms = o.shift_scale_mp(ms, 0, 1 / mp.mpf(zoom))
    z = z / zoom
    mean, sd = float(ms[1]), math.sqrt(max(float(ms[2] - ms[1] ** 2), 1e-12 * zoom ** 2))
    if c['zero'] and c['mode'] != 'raw':
        mean = 0.
    ms = ms[:2 * n]
    m, s, kind = {'raw': (0., 1., 0), 'central': (mean, 1., 1), 'scaled': (mean, sd, 2), 'any': (mean + c['dc'] * zoom, c['s'] * zoom, 2)}[c['mode']]
    f = o.tofloat(o.shift_scale_mp(ms, m, s))
    kappa = o.hankel_cond(f, n)
    if kappa > 1e11:
        ctx.inconclusive('ill-conditioned')
    w, x = o.gauss_rule_mp([mp.mpf(v) for v in f], n)
    ex = complex(mp.fsum([a * mp.expj(mp.mpf(z) * (mp.mpf(m) + mp.mpf(s) * b)) for a, b in zip(w, x)]))
    xf = o.tofloat(x)
    spread = max(np.max(np.abs(xf)), 1e-3 * zoom / s)
    gap = np.min(np.diff(xf)) if n > 1 else spread
    e = 2000 * 2.2e-16 * kappa + 1e-12
    tol = e * spread * s * abs(z) + n * e * spread / gap + 1e-14 * abs(m * z) + 1e-11
    if tol > 1e-4:
        ctx.inconclusive('ill-conditioned')
    ctx.label(f'n={n}', c['mode'])
    ctx.nt(n >= 2 and z != 0)
    if c['jit']:
        call = lambda zz: ctx.call('characteristic_fn', _cf, zz, jnp.asarray(f), m, s, kind)
    else:
        args = [(), (m,), (m, s)][kind]
        call = lambda zz: ctx.call('characteristic_fn', characteristic_fn, zz, jnp.asarray(f), *args)
    v = complex(ctx.arr(call(z), (), 'characteristic function', dtype=complex))
    ctx.close(v, ex, 'characteristic function', tol=tol)
    ctx.true(abs(v) <= 1 + 1e-9 + tol, 'modulus at most one', value=abs(v))
    ctx.close(complex(np.asarray(call(-z))), np.conj(v), 'Hermitian', tol=1e-10 + 1e-13 * abs(z) * (abs(m) + s * spread))
    ctx.close(complex(np.asarray(call(0.))), 1. + 0j, 'value at zero', tol=1e-10)
    if c['dist']['kind'] == 'atoms' and len(c['dist']['x']) == n and not (c['zero'] and c['mode'] != 'raw'):
        sh = 0. if c['mode'] == 'raw' else c['shift']
        wn = np.array(c['dist']['w']) / np.sum(c['dist']['w'])
        ctx.label('n atoms')
        ctx.close(v, np.sum(wn * np.exp(1j * c['z'] * (np.array(c['dist']['x']) + sh))), 'exact for n atoms', tol=50 * tol)


@st.composite
def grid_case(draw):
    m = draw(st.integers(2, 40))
    x0 = draw(q(-5, 5, 16))
    return dict(x=[x0 + v for v in np.cumsum([0.] + draw(vec(qpos(0.05, 1, 32), m - 1))).tolist()],
                p=draw(vec(q(-1, 3, 32), m)), ci=draw(vec(q(-2, 2, 32), m)), z=draw(q(-6, 6, 32)))


def trap(f, x):
    return np.sum((f[1:] + f[:-1]) / 2 * np.diff(x))


@PROP.sub('trapezoidal_transforms', grid_case(), quick=500, shards=1)
def transforms(c, ctx):
    """On any grid (uniform or not) both transforms are the trapezoidal sums of their definitions."""
    x, p, z = np.array(c['x']), np.array(c['p']), c['z']
    ctx.nt(z != 0)
    v = ctx.call('characteristic_from_pdf', characteristic_from_pdf, z, jnp.asarray(p), jnp.asarray(x))
    ex = trap(np.exp(1j * z * x) * p, x)
    size = trap(np.abs(p), x) + 1e-12
    ctx.close(np.asarray(v), np.asarray(ex), 'transform of a tabulated density', tol=1e-11 * size)
    cf_ = p + 1j * np.array(c['ci'])
    v = ctx.call('inverse_fourier', inverse_fourier, z, jnp.asarray(cf_), jnp.asarray(x))
    ex = np.real(trap(np.exp(-1j * z * x) * cf_, x)) / (2 * math.pi)
    ctx.true(not np.iscomplexobj(np.asarray(v)), 'density is real')
    ctx.close(v, ex, 'inverse transform', tol=1e-11 * trap(np.abs(cf_), x) + 1e-14)


mix = st.integers(1, 3).flatmap(lambda m: st.fixed_dictionaries(dict(
    m=vec(q(-2, 2, 16), m), s=vec(qpos(0.4, 1.5, 16), m), w=simplex(m), x=vec(q(-4, 4, 16), 3), z=vec(q(-4, 4, 16), 3))))


@PROP.sub('inversion', mix, quick=80, shards=1)
def inversion(c, ctx):
    """Density -> characteristic function -> density, well resolved."""
    ms, s, w = np.array(c['m']), np.array(c['s']), np.array(c['w']) / np.sum(c['w'])
    xs = np.linspace(-16, 16, 1601)
    pdf = lambda x: np.sum(w * np.exp(-0.5 * ((x[..., None] - ms) / s) ** 2) / (s * math.sqrt(2 * math.pi)), axis=-1)
    cfun = lambda z: np.sum(w * np.exp(1j * z[..., None] * ms - 0.5 * (z[..., None] * s) ** 2), axis=-1)
    zs = np.linspace(-20, 20, 801)
    ctx.nt()
    ps = jnp.asarray(pdf(xs))
    cfs = ctx.call('characteristic_from_pdf', jax.vmap(characteristic_from_pdf, in_axes=[0, None, None]), jnp.asarray(zs), ps, jnp.asarray(xs))
    ctx.close(np.asarray(cfs), cfun(zs), 'characteristic function of a mixture', tol=1e-9)
    x = np.array(c['x'])
    back = ctx.call('inverse_fourier', jax.vmap(inverse_fourier, in_axes=[0, None, None]), jnp.asarray(x), cfs, jnp.asarray(zs))
    ctx.close(back, pdf(x), 'density recovered', tol=1e-8)


@st.composite
def taylor_case(draw):
    order = draw(st.integers(0, 6))
    deg = draw(st.integers(0, 8))
    return dict(order=order, coef=draw(vec(q(-2, 2, 16), deg + 1)), mean=draw(q(-3, 3, 16)), extra=draw(st.integers(0, 2)),
                e=draw(vec(q(-2, 2, 16), 2)), dist=draw(gen.dist1d(4)), pad=draw(st.integers(0, 3)), nonpoly=draw(st.booleans()),
                cfree=draw(st.booleans()))


def _poly(coef, x):
    v = 0.
    for k in range(len(coef) - 1, -1, -1):
        v = v * x + coef[k]
    return v


@PROP.sub('taylor', taylor_case(), quick=160, shards=4)
def taylor(c, ctx):
    order, coef = c['order'], c['coef']
    num = max(order + 1 + c['pad'], 2)
    ms = gen.normalise(gen.moments1d(c['dist'], num))
    cms = o.tofloat(o.shift_scale_mp(ms, ms[1], 1)) if not c['cfree'] else o.tofloat(ms)  # any sequence of numbers is a valid input
    mean, e = c['mean'], c['e'][:c['extra']]
    a = e[0] if c['extra'] >= 1 else 1.
    b = e[1] if c['extra'] >= 2 else 0.

    def f(x, *ops):
        aa = ops[0] if len(ops) >= 1 else 1.
        bb = ops[1] if len(ops) >= 2 else 0.
        base = jnp.exp(0.5 * x) * jnp.sin(x) if c['nonpoly'] else _poly([jnp.float64(v) for v in coef], x)
        return aa * base + bb * x

    # Taylor coefficients at the mean
    if c['nonpoly']:
        t = [complex(v) for v in mp.taylor(lambda x: mp.exp(x / 2) * mp.sin(x), mp.mpf(mean), order + 1)][:order + 1]
        t = [float(v.real) for v in t]
    else:
        t = [sum(math.comb(j, k) * coef[j] * mean ** (j - k) for j in range(k, len(coef))) for k in range(order + 1)]
    t = [a * v for v in t]
    t[0] += b * mean
    if order >= 1:
        t[1] += b
    ex = sum(t[k] * (cms[k] if k else 1.) for k in range(order + 1))
    size = sum(abs(t[k] * cms[k]) for k in range(order + 1)) + sum(abs(v) * (1 + abs(mean)) ** i for i, v in enumerate(coef)) * abs(a)
    ctx.nt(order >= 2 and (c['nonpoly'] or any(coef[1:])))
    ctx.label(f'order={order}', f'{c["extra"]} operands', 'polynomial within order' if not c['nonpoly'] and len(coef) - 1 <= order else 'truncated')
    v = ctx.call('taylor_quadrature', taylor_quadrature, f, jnp.asarray(cms), mean, order, *e)
    ctx.close(v, ex, 'Taylor quadrature', tol=1e-10 * size + 1e-12)
    if not c['nonpoly'] and len(coef) - 1 <= order and not c['cfree']:
        # exact expectation of the polynomial under the distribution recentred at `mean`
        exact = sum(a * coef[j] * sum(math.comb(j, k) * cms[k] * mean ** (j - k) for k in range(j + 1)) for j in range(len(coef))) + b * mean + (b * cms[1] if order >= 1 else 0.)
        ctx.close(v, exact, 'polynomial expectation', tol=1e-9 * (size + sum(abs(a * coef[j]) * sum(math.comb(j, k) * abs(cms[k]) * abs(mean) ** (j - k) for k in range(j + 1)) for j in range(len(coef)))) + 1e-12)


@st.composite
def taylor_high_case(draw):
    order = draw(st.integers(7, 14))
    nt = draw(st.integers(1, 2))
    return dict(order=order, mean=draw(q(-2, 2, 8)), terms=[[draw(st.integers(2, order + 2)), draw(q(-2, 2, 8))] for _ in range(nt)],
                cms=[1., 0.] + draw(vec(q(-2, 2, 16), order - 1)), expo=draw(st.booleans()), rate=draw(q(-1, 1, 8)))


@PROP.sub('taylor_high_order', taylor_high_case(), quick=36, thorough=1200, shards=3)
def taylor_high(c, ctx):
    """High orders: sums of monomials, or an exponential, against the closed-form Taylor coefficients at the mean."""
    order, m, cms = c['order'], c['mean'], c['cms']
    if c['expo']:
        a = c['rate']
        f = lambda x: jnp.exp(a * x)
        t = [math.exp(a * m) * a ** k / math.factorial(k) for k in range(order + 1)]
    else:
        f = lambda x: sum(v * x ** e for e, v in c['terms'])
        t = [sum(v * math.comb(e, k) * m ** (e - k) for e, v in c['terms'] if e >= k) for k in range(order + 1)]
    ex = sum(a * b for a, b in zip(t, cms))
    size = sum(abs(a * b) for a, b in zip(t, cms))
    ctx.nt(size > 0)
    ctx.label(f'order={order}')
    v = ctx.call('taylor_quadrature', taylor_quadrature, f, jnp.asarray(cms), m, order)
    ctx.close(v, ex, 'Taylor quadrature of high order', tol=1e-9 * size + 1e-12)
