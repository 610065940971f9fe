from ..core import *
from .. import oracles as o, sde
import jax
import jax.numpy as jnp
from functools import lru_cache
from mfs.classical_filters_smoothers.brute_force import brute_force_filter

PROP = Prop('C23', rule='at least two measurements, a state-dependent drift and an informative likelihood',
            assumptions=['double precision (jax x64) is enabled', 'the Kolmogorov solver is judged only while explicit time stepping does not amplify rounding '
                         '(estimated by perturbing the reference); its densities may be negative, as the finite differences are',
                         'the dispersion is positive on the grid for the Euler transition (its sign carries no meaning, and only the scale is used there)'])


# ------------------------------------------------------------------------------------------------ likelihoods and initial densities
def lik(kind, h, y, x, xp):
    if kind == 'normal':
        return xp.exp(-0.5 * (y - h[0] * x - h[1] * x ** 2) ** 2 / h[2]) / xp.sqrt(2 * math.pi * h[2])
    if kind == 'poisson':  # intensity softplus; un-normalised in y
        lam = xp.log1p(xp.exp(h[0] * x)) + 0.1
        return lam ** y * xp.exp(-lam)
    if kind == 'bernoulli':
        p = 1 / (1 + xp.exp(-(h[0] * x + h[1])))
        return y * p + (1 - y) * (1 - p)
    if kind == 'vector':  # two sensors
        return xp.exp(-0.5 * (y[0] - h[0] * x) ** 2 / h[2]) * xp.exp(-0.5 * (y[1] - x ** 2) ** 2 / (4 * h[2]))
    raise KeyError(kind)


@lru_cache(maxsize=None)
def runner(method, steps, kind, const, default):
    def run(a, b, h, ps, xs, ys, dt):
        kw = {}
        if not default:
            kw = dict(integration_steps=steps, pred_method=method)
        disp = (lambda x: b[0]) if const else (lambda x: sde.g1(b, x))
        return brute_force_filter(lambda x: sde.f1(a, x), disp, lambda y, x: h[3] * lik(kind, h, y, x, jnp), ps, xs, ys, dt, **kw)

    return jax.jit(run)


def trapz(v, x):
    return np.sum(0.5 * (v[..., 1:] + v[..., :-1]) * np.diff(x), axis=-1)


def grad_np(p, dx):
    out = np.empty_like(p)
    out[1:-1] = (p[2:] - p[:-2]) / (2 * dx)
    out[0], out[-1] = (p[1] - p[0]) / dx, (p[-1] - p[-2]) / dx
    return out


def transition(c, xs, ddt):
    """Mean and variance of the sub-step transition approximation, at every grid point."""
    a, b = c['a'], c['b']
    if c['method'] == 'chapman-euler':
        return xs + sde.f1(a, xs, np) * ddt, sde.g1(b, xs, np) ** 2 * ddt
    order = int(c['method'].split('-')[-1])
    t = sde.tme1(c)
    mc = [t.mean_cov(order, ddt, np.array([x])) for x in xs]
    m, C, S = np.array([v[0][0] for v in mc]), np.array([v[1][0, 0] for v in mc]), np.array([v[2] for v in mc])
    if np.any(C <= 1e-6 * S):
        raise Inconclusive('expansion without a positive variance')
    return m, C


def reference(c, ps, xs, ys, noise=0.):
    n = len(xs)
    ddt = c['dt'] / c['steps']
    r = np.where(np.arange(n) % 2, 1., -1.) * np.where(np.arange(n) % 4 < 2, 1., -1.) if noise else 0.
    a, b = c['a'], c['b']
    if c['method'] == 'kolmogorov':
        dx = xs[1] - xs[0]
        s, co = np.sin(xs), np.cos(xs)
        f, df = sde.f1(a, xs, np), a[1] + 3 * a[2] * xs ** 2 + a[3] * co
        g, dg, ddg = sde.g1(b, xs, np), b[1] + b[2] * co, -b[2] * s
        G, dG, ddG = g ** 2, 2 * g * dg, 2 * dg ** 2 + 2 * g * ddg
    else:
        m, v = transition(c, xs, ddt)
        K = np.exp(-0.5 * (xs[:, None] - m) ** 2 / v) / np.sqrt(2 * math.pi * v)  # (to, from)
    out = []
    for y in ys:
        for _ in range(c['steps']):
            if c['method'] == 'kolmogorov':
                dp = grad_np(ps, dx)
                ddp = grad_np(dp, dx)
                ps = ps + ddt * (-(df * ps + f * dp) + 0.5 * (ddG * ps + 2 * dG * dp + G * ddp))
            else:
                ps = trapz(K * ps, xs)
            if noise:
                ps = ps + noise * r * np.max(np.abs(ps))
        w = lik(c['kind'], c['h'], y, xs, np) * ps
        z = trapz(w, xs)
        if not np.isfinite(z) or abs(z) < 1e-10 * trapz(np.abs(lik(c['kind'], c['h'], y, xs, np)) * np.max(np.abs(ps)), xs) or abs(z) < 1e-6 * trapz(np.abs(w), xs):
            raise Inconclusive('vanishing evidence')
        ps = w / z
        out.append(ps)
    return np.array(out)


def grid(c):
    n = c['n']
    xs = np.linspace(-c['half'] + c['shift'], c['half'] + c['shift'], n)
    if c['uneven']:
        h = 2 * c['half'] / (n - 1)
        xs = xs + 0.35 * h * np.sin(1.7 * np.arange(n) + c['shift'])
    return xs


def initial(c, xs):
    m, v = c['m0'], c['v0']
    p = np.exp(-0.5 * (xs - m) ** 2 / v)
    if c['bimodal']:
        p = p + 0.5 * np.exp(-0.5 * (xs + m + 1) ** 2 / v)
    return p / trapz(p, xs) * c['mass']


@st.composite
def case(draw, kolmogorov=None):
    kol = draw(st.integers(0, 3)) == 0 if kolmogorov is None else kolmogorov
    c = draw(sde.sde1())
    default = not kol and draw(st.integers(0, 5)) == 0
    method = 'kolmogorov' if kol else ('chapman-tme-2' if default else draw(st.sampled_from(['chapman-euler', 'chapman-tme-1', 'chapman-tme-2', 'chapman-tme-3'])))
    steps = 1 if default else draw(st.sampled_from([1, 2, 5] if not kol else [1, 10]))
    const = method in ('chapman-euler', 'kolmogorov') and draw(st.booleans())
    if const:
        c['b'] = [c['b'][0], 0., 0.]
    kind = draw(st.sampled_from(['normal', 'normal', 'poisson', 'bernoulli', 'vector']))
    T = draw(st.integers(1, 4))
    y = dict(normal=q(-2, 2, 8), poisson=st.integers(0, 4).map(float), bernoulli=st.integers(0, 1).map(float), vector=vec(q(-1, 2, 8), 2))[kind]
    c.update(method=method, steps=steps, default=default, const=const, kind=kind, ys=draw(vec(y, T)), h=[draw(q(-1.5, 1.5, 8)), draw(q(-1, 1, 8)), draw(qpos(0.2, 2, 8))],
             n=48 if kind in ('poisson', 'vector') else draw(st.sampled_from([48, 101])), half=draw(qpos(2, 5, 4)), shift=draw(q(-1, 1, 8)), uneven=not kol and draw(st.booleans()),
             m0=draw(q(-1, 1, 8)), v0=draw(qpos(0.2, 1.5, 8)), bimodal=draw(st.booleans()), mass=draw(st.sampled_from([1., 1., 2.5])),
             ints=draw(st.booleans()), mu=2. ** draw(st.sampled_from([0, 0, 60, -60, -100, 300])),  # the unit of the measurement density
             dt=draw(qpos(0.05, 0.6, 64)) if not kol else draw(qpos(0.02, 0.2, 128)))
    if method == 'chapman-euler':  # the transition scale is the dispersion itself: keep it positive on the grid
        b0, b1, b2 = c['b']
        c['b'] = [max(b0, abs(b1) * (c['half'] + 1.5) + abs(b2) + 0.0625), b1, b2]
    return c


def run(c, ctx, ps, xs, ys):
    f = runner(c['method'], c['steps'], c['kind'], c['const'], c['default'])
    J = lambda v: jnp.asarray(np.asarray(v, dtype=float))
    return ctx.call('brute_force_filter', f, J(c['a']), J(c['b']), J(list(c['h']) + [c.get('mu', 1.)]), J(ps), J(xs), jnp.asarray(np.asarray(ys, dtype=int if c.get('ints') and c['kind'] in ('poisson', 'bernoulli') else float)), J(c['dt']))


@PROP.sub('reference', case(), quick=260, thorough=4000, shards=8)
def ref(c, ctx):
    xs, ys = grid(c), np.array(c['ys'], dtype=float)
    ps0 = initial(c, xs)
    want = reference(c, ps0, xs, ys)
    per = reference(c, ps0, xs, ys, 1e-12)
    size = np.max(np.abs(want), axis=1, keepdims=True)
    tol = 20 * np.max(np.abs(per - want), axis=1, keepdims=True) + 1e-10 * size
    if not np.all(tol <= 1e-4 * size):
        ctx.inconclusive('amplified rounding')
    ctx.label(c['method'], f"steps={c['steps']}", c['kind'], 'uneven' if c['uneven'] else 'even', 'constant dispersion' if c['const'] else '')
    ctx.nt(len(ys) >= 2 and any(c['a'][1:]) and c['h'][0] != 0)
    got = ctx.arr(run(c, ctx, ps0, xs, ys), want.shape, 'densities')
    ctx.close(got, want, 'filtering densities', tol=np.broadcast_to(tol, want.shape))
    ctx.close(trapz(got, xs), np.ones(len(ys)), 'total mass', tol=1e-12 * np.sqrt(c['n']) * (1 + trapz(np.abs(got), xs)))
    if c['method'] != 'kolmogorov':
        ctx.true(np.all(got >= 0), 'negative density')
        ctx.close(got, want, 'filtering densities in the tails', tol=1e-7 * want + 1e-250)  # sums of positive terms keep relative accuracy


# ------------------------------------------------------------------------------------------------ linear Gaussian models
@st.composite
def lg_case(draw):
    method = draw(st.sampled_from(['chapman-euler', 'chapman-tme-1', 'chapman-tme-2', 'chapman-tme-3', 'chapman-tme-2', 'kolmogorov']))
    T = draw(st.integers(1, 4))
    return dict(method=method, a=[draw(q(-1, 1, 16)), draw(q(-1, 0.5, 16)), 0., 0.], b=[draw(qpos(0.5, 1.25, 16)), 0., 0.], default=False, const=draw(st.booleans()) and 'tme' not in method,
                kind='normal', h=[draw(qpos(0.5, 1.5, 8)) * draw(st.sampled_from([-1., 1.])), 0., draw(qpos(0.5, 2, 8))], ys=draw(vec(q(-2, 2, 8), T)), m0=draw(q(-1, 1, 8)), v0=draw(qpos(0.5, 1.5, 8)),
                steps=draw(st.sampled_from([1, 2, 5])) if method != 'kolmogorov' else 200, dt=draw(qpos(0.1, 0.6, 32)), bimodal=False, mass=1., uneven=False, n=401, half=9., shift=0.)


def lg_kalman(c, ys, exact):
    """Kalman recursion for dx = (a0 + a1 x) dt + s dW discretised by the method (or exactly)."""
    m, v = c['m0'], c['v0']
    a0, a1, s = c['a'][0], c['a'][1], c['b'][0]
    dt = c['dt'] / c['steps']
    if exact:
        k = 60
    else:
        k = 1 if c['method'] == 'chapman-euler' else int(c['method'].split('-')[-1])
    E = lambda z, k: sum(z ** r / math.factorial(r) for r in range(k + 1))
    F = E(a1 * dt, k)
    u = a0 * sum(a1 ** (r - 1) * dt ** r / math.factorial(r) for r in range(1, k + 1))
    Q = s ** 2 * sum((2 * a1) ** (r - 1) * dt ** r / math.factorial(r) for r in range(1, k + 1))
    out = []
    for y in ys:
        for _ in range(c['steps']):
            m, v = F * m + u, F * F * v + Q
        h, R = c['h'][0], c['h'][2]
        K = v * h / (h * h * v + R)
        m, v = m + K * (y - h * m), v - K * h * v
        out.append((m, v))
    return np.array(out)


@PROP.sub('kalman', lg_case(), quick=80, thorough=800, shards=8)
def kalman(c, ctx):
    """Linear Gaussian models: densities of the Kalman filter with the method's transition, and close to the exact ones."""
    xs, ys = grid(c), np.array(c['ys'])
    pdf = lambda mv: np.exp(-0.5 * (xs - mv[:, :1]) ** 2 / mv[:, 1:]) / np.sqrt(2 * math.pi * mv[:, 1:])
    kol = c['method'] == 'kolmogorov'
    dx, ddt = xs[1] - xs[0], c['dt'] / c['steps']
    ex = lg_kalman(c, ys, True)
    if np.any(np.abs(ex[:, 0]) + 6 * np.sqrt(ex[:, 1]) > 8) or np.sqrt(np.min(ex[:, 1])) < 8 * dx:
        ctx.inconclusive('grid does not cover the densities')
    if not kol and c['b'][0] * math.sqrt(ddt) < 2.2 * dx:
        ctx.inconclusive('grid too coarse for the transition')
    if kol and (c['b'][0] ** 2 * ddt / (4 * dx * dx) > 0.4 or 9 * (abs(c['a'][1]) * 9 + abs(c['a'][0])) * ddt / dx > 4):
        ctx.inconclusive('explicit scheme unstable')
    ctx.label(c['method'], f"steps={c['steps']}")
    ctx.nt(len(ys) >= 2 and c['a'][1] != 0)
    ps0 = pdf(np.array([[c['m0'], c['v0']]]))[0]
    got = ctx.arr(run(c, ctx, ps0, xs, ys), (len(ys), len(xs)), 'densities')
    want = pdf(ex)
    if not kol:
        app = lg_kalman(c, ys, False)
        ctx.close(got, pdf(app), 'densities of the discretised Kalman filter', atol=1e-5)
        # accuracy of the transition approximation: local error O(ddt^(k+1)) of mean and variance, accumulated over the record
        k = 1 if c['method'] == 'chapman-euler' else int(c['method'].split('-')[-1])
        z = 2 * abs(c['a'][1]) * ddt
        loc = 4 * z ** k * c['dt'] * len(ys) / math.factorial(k + 1) * (2 + abs(c['a'][0])) * 4
        ctx.close(got, want, 'densities of the exact Kalman filter', atol=1e-5 + 3 * loc)
        mean = trapz(got * xs, xs)
        ctx.close(mean, app[:, 0], 'means of the densities', atol=1e-5)
    else:
        ctx.close(got, want, 'densities of the exact Kalman filter', atol=0.02)


# ------------------------------------------------------------------------------------------------ the requested number of sub-steps, splits of the record
@st.composite
def compose_case(draw):
    c = draw(case())
    c['k'] = 2 if c['steps'] > 2 else 3
    c['default'] = False
    return c


@PROP.sub('substeps', compose_case(), quick=56, thorough=1500, shards=8)
def substeps(c, ctx):
    """k s sub-steps over k dt with a flat first likelihood = k intervals of s sub-steps with flat likelihoods; restart from own output."""
    k = c['k']
    xs = grid(c)
    ps = initial(c, xs)
    ys = np.array(c['ys'], dtype=float)
    flat = dict(c, kind='normal', h=[0., 0., 1.])
    one = dict(flat, dt=c['dt'] * k, steps=c['steps'] * k)
    want = reference(flat, ps, xs, np.zeros(k))
    per = reference(flat, ps, xs, np.zeros(k), 1e-12)
    tol = 20 * np.max(np.abs(per - want), axis=1) + 1e-10 * np.max(np.abs(want), axis=1)
    if not np.all(tol <= 1e-4 * np.max(np.abs(want), axis=1)):
        ctx.inconclusive('amplified rounding')
    A = ctx.arr(run(flat, ctx, ps, xs, np.zeros(k)), (k, c['n']), 'densities')
    B = ctx.arr(run(one, ctx, ps, xs, np.zeros(1)), (1, c['n']), 'densities')
    ctx.close(B[0], A[-1], 'composition of sub-steps', tol=2 * tol[-1] * np.ones(c['n']))
    ctx.label(c['method'])
    ctx.nt(any(c['a'][1:]))
    if not c['default']:
        want = reference(c, ps, xs, ys)
        per = reference(c, ps, xs, ys, 1e-12)
        tol = (20 * np.max(np.abs(per - want), axis=1) + 1e-10 * np.max(np.abs(want), axis=1))
        if not np.all(tol <= 1e-4 * np.max(np.abs(want), axis=1)):
            ctx.inconclusive('amplified rounding')
        full = ctx.arr(run(c, ctx, ps, xs, ys), want.shape, 'densities')
        # scaling the initial density does not matter: the update normalises
        sc = ctx.arr(run(c, ctx, 3. * ps, xs, ys), want.shape, 'densities')
        ctx.close(sc, full, 'densities from a rescaled start', tol=2 * tol[:, None] * np.ones(c['n']))


# ------------------------------------------------------------------------------------------------ unknown methods
@st.composite
def bad_case(draw):
    return dict(name=draw(st.sampled_from(['', 'foo', 'euler', 'tme-2', 'tme', 'kolmogorov-2', 'Kolmogorov', 'chapman', 'chapman-foo', 'chapman-tme-', 'chapman-tme-x', 'chapman_euler',
                                           'fokker-planck', 'chapman-tme', 'chapmaneuler', 'milstein'])),
                n=draw(st.sampled_from([9, 17])), T=draw(st.integers(1, 3)), steps=draw(st.integers(1, 3)))


@PROP.sub('unknown', bad_case(), quick=30, thorough=60)
def unknown(c, ctx):
    xs = jnp.linspace(-2, 2, c['n'])
    ctx.nt(bool(c['name']))
    ctx.label(c['name'])
    ctx.raises(f"method {c['name']!r}", Exception, brute_force_filter, lambda x: -x, lambda x: 1. + 0 * x, lambda y, x: jnp.exp(-0.5 * (y - x) ** 2), jnp.exp(-0.5 * xs ** 2), xs,
               jnp.zeros(c['T']), 0.1, c['steps'], c['name'])
