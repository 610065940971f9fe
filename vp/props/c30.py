from ..core import *
from .. import oracles as o
import jax
import jax.numpy as jnp
from functools import lru_cache
from scipy.special import ndtr, expit, gammaln, xlogy
from mfs.utils import simulate_sde
from mfs.one_dim.ss_models import benes_bernoulli, well_poisson
from mfs.multi_dims.ss_models import satellite_orbital_stability, prey_predator

PROP = Prop('C30', rule='a trajectory of at least two times with a state-dependent mean, or a model evaluated at a non-zero state',
            assumptions=['double precision (jax x64) is enabled', 'laws of samples are judged by the Dvoretzky-Kiefer-Wolfowitz bound and by exponential martingale bounds, '
                         'at failure probability 1e-12 per statistic'])
LOG = math.log(2e12)


def dkw(ctx, u, name, bias=0.):
    """u ~ U(0, 1) iid, up to `bias` in distribution."""
    u = np.sort(np.ravel(u))
    n = len(u)
    i = np.arange(1, n + 1)
    dist = max(np.max(i / n - u), np.max(u - (i - 1) / n))
    ctx.true(dist <= math.sqrt(LOG / (2 * n)) + bias, f'{name}: too far from its law', distance=float(dist), n=n)


def martingale(ctx, z, r, name, bias=0.):
    """z conditionally N(0, 1), r known one step before: sum r z is small against sum r^2 (Gaussian exponential supermartingale, peeled)."""
    r = np.broadcast_to(r, z.shape)
    s, v = float(np.sum(r * z)), float(np.sum(r * r))
    if v > 0:
        ctx.true(abs(s) <= math.sqrt(2 * 2 * v * (LOG + 6)) + bias * float(np.sum(np.abs(r))), f'{name}: increments correlate with the past', sum=s, sd=math.sqrt(v))


def every_step(ctx, z, name, bias=0.):
    """z (n, T, ...) standard Normal, up to a small bias: no step is special, no increment is out of proportion."""
    T = z.shape[1]
    for t in (0, 1, T // 2, T - 1):
        dkw(ctx, ndtr(z[:, t]), f'{name} {t}', bias=bias)
    ctx.true(np.max(np.abs(z)) < 12, f'{name}: out of proportion', where=[int(v) for v in np.unravel_index(np.argmax(np.abs(z)), z.shape)], value=float(np.max(np.abs(z))))


# ------------------------------------------------------------------------------------------------ simulate_sde
@lru_cache(maxsize=None)
def simulator(d, T, steps, diag, kind, given):
    """kind: 'det' noiseless non-linear mean; 'path' non-linear mean, state-dependent covariance; 'lin' exact linear."""

    def run(P, x0, dt, key):
        def m_and_cov(x, h):
            if kind == 'lin':
                return P['F'] @ x + P['b'], P['Q']
            m = 0.6 * x + h * (P['b'] + P['A'] @ jnp.sin(x)) + h ** 2 * P['A'] @ jnp.cos(x)
            if kind == 'det':
                return m, jnp.zeros((d, d))
            s = P['L'] * jnp.sqrt(h) * (1 + 0.5 * jnp.cos(x))[:, None]
            return m, (jnp.diag(jnp.diagonal(s) ** 2) if diag else s @ s.T)

        kw = {}
        if given:
            kw = dict(diagonal_cov=diag, integration_steps=steps)
        return simulate_sde(m_and_cov, x0, dt, T, key, **kw)

    return jax.jit(run), jax.jit(jax.vmap(run, in_axes=[None, None, None, 0]))


@st.composite
def sde_case(draw, kind):
    d = draw(st.sampled_from([1, 2, 3, 5]))
    diag = True if kind == 'det' else draw(st.booleans())
    given = diag or draw(st.booleans())
    T, steps = draw(st.sampled_from([(1, 1), (3, 1), (4, 3), (2, 5)] + ([(60, 1), (2, 40), (1, 100)] if kind == 'det' else [])))
    if kind == 'path':
        T, steps = 400, 1
    if not given:
        steps = 1
    return dict(kind=kind, d=d, T=T, steps=steps, diag=diag, given=given, b=draw(vec(q(-1, 1, 8), d)), A=draw(mat(q(-1, 1, 8), d, d)), L=draw(tril(d, off=1., lo=0.25, hi=1.5)),
                x0=draw(vec(q(-2, 2, 8), d)), scalar=d == 1 and draw(st.booleans()), dt=draw(qpos(0.05, 0.5, 32)), key=draw(st.integers(0, 2 ** 31 - 1)),
                u=draw(mat(q(-1, 1, 8), 3, d)))


def run(c, ctx, keys=None):
    f, fv = simulator(c['d'], c['T'], c['steps'], c['diag'], c['kind'], c['given'])
    P = {k: jnp.asarray(np.array(c[k], dtype=float)) for k in ('b', 'A', 'L', 'F', 'Q') if k in c}
    x0 = jnp.asarray(c['x0'][0]) if c['scalar'] else jnp.asarray(np.array(c['x0']))
    if keys is None:
        return ctx.arr(ctx.call('simulate_sde', f, P, x0, jnp.asarray(c['dt']), jax.random.PRNGKey(c['key'])), (c['T'], c['d']), 'trajectory')
    return ctx.arr(ctx.call('simulate_sde', fv, P, x0, jnp.asarray(c['dt']), jax.random.split(jax.random.PRNGKey(c['key']), keys)), (keys, c['T'], c['d']), 'trajectories')


def mean_np(c, x, h):
    b, A = np.array(c['b']), np.array(c['A'])
    return 0.6 * x + h * (b + np.sin(x) @ A.T) + h ** 2 * np.cos(x) @ A.T


@PROP.sub('deterministic', sde_case('det'), quick=120, thorough=2000, shards=2)
def det(c, ctx):
    """Without noise: the mean is applied `integration_steps` times per interval with the divided step, starting from x0."""
    x = np.array(c['x0'])
    h = c['dt'] / c['steps']
    want = []
    for _ in range(c['T']):
        for _ in range(c['steps']):
            x = mean_np(c, x, h)
        want.append(x)
    ctx.nt(c['T'] >= 2 and np.any(c['A']))
    ctx.label(f"d={c['d']}", f"T={c['T']} steps={c['steps']}")
    got = run(c, ctx)
    ctx.close(got, np.array(want), 'noiseless trajectory', tol=1e-12 * (1 + np.abs(np.array(want))) * c['T'] * c['steps'] * 10)


@PROP.sub('path', sde_case('path'), quick=200, thorough=1500, shards=2)
def path(c, ctx):
    """One trajectory: standardised increments are independent standard Normal, whatever the state-dependent covariance."""
    x = run(c, ctx)
    ctx.true(np.array_equal(x, run(c, ctx)), 'trajectory reproducible from the key')
    ctx.true(not np.array_equal(x, run(dict(c, key=c['key'] ^ 1), ctx)), 'trajectory depends on the key')
    prev = np.vstack([np.array(c['x0'])[None], x[:-1]])
    L = np.array(c['L'])
    m = mean_np(c, prev, c['dt'])
    res = x - m
    if c['diag']:
        s = np.diagonal(L) * math.sqrt(c['dt']) * (1 + 0.5 * np.cos(prev))
        z = res / s
    else:
        S = L[None] * math.sqrt(c['dt']) * (1 + 0.5 * np.cos(prev))[..., None]
        z = np.linalg.solve(S, res[..., None])[..., 0]
    ctx.nt(np.any(c['A']))
    ctx.label(f"d={c['d']}", 'diagonal' if c['diag'] else 'full', 'flags given' if c['given'] else 'default flags')
    dkw(ctx, ndtr(z), 'increments')
    for k in range(1, 4):
        dkw(ctx, ndtr((z[k:] + z[:-k])[::2] / math.sqrt(2)), f'sums of increments at lag {k}')
        martingale(ctx, z[k:], z[:-k], f'lag {k}')
    if c['d'] > 1:
        dkw(ctx, ndtr((z[:, 0] + z[:, 1]) / math.sqrt(2)), 'sums of increments of two coordinates')
        dkw(ctx, ndtr((z[:, 0] - z[:, -1]) / math.sqrt(2)), 'differences of increments of two coordinates')
    ctx.true(len(np.unique(z)) == z.size, 'repeated increments')
    martingale(ctx, z, prev, 'state')


@st.composite
def lin_case(draw):
    c = draw(sde_case('lin'))
    d = c['d']
    c['F'] = [[v * 0.8 for v in r] for r in c['A']]
    Lm = np.array(c['L'])
    c['Q'] = (np.diag(np.diagonal(Lm) ** 2) if c['diag'] else Lm @ Lm.T).tolist()
    return c


@PROP.sub('linear', lin_case(), quick=100, thorough=800, shards=2)
def lin(c, ctx):
    """Joint law of the trajectory of a linear Gaussian transition with sub-steps, over many keys."""
    n, d, T = 4000, c['d'], c['T']
    X = run(c, ctx, n)
    F, b, Q = np.array(c['F']), np.array(c['b']), np.array(c['Q'])
    m, M = np.array(c['x0']), []
    G = np.zeros((T * d, T * c['steps'] * d))  # x = M + G noise
    cur = np.zeros((d, T * c['steps'] * d))
    LQ = np.linalg.cholesky(Q)
    for t in range(T):
        for s in range(c['steps']):
            m = F @ m + b
            cur = F @ cur
            k = (t * c['steps'] + s) * d
            cur[:, k:k + d] += LQ
        M.append(m)
        G[t * d:(t + 1) * d] = cur
    M = np.concatenate(M)
    C = G @ G.T
    ctx.nt(T >= 2 and np.any(F))
    ctx.label(f'd={d}', f"T={T} steps={c['steps']}", 'diagonal' if c['diag'] else 'full')
    X = X.reshape(n, T * d)
    rs = np.random.RandomState(c['key'] % 2 ** 31)
    dirs = [np.eye(T * d)[i] for i in range(T * d)][-4:] + [rs.randn(T * d) for _ in range(4)] + [np.tile(u, T) for u in np.array(c['u'])]
    for u in dirs:
        v = float(u @ C @ u)
        if v > 1e-9:
            dkw(ctx, ndtr((X @ u - M @ u) / math.sqrt(v)), 'projection of the trajectory')


# ------------------------------------------------------------------------------------------------ bundled models
@st.composite
def model_case(draw):
    return dict(model=draw(st.sampled_from(['benes', 'well', 'prey', 'satellite'])), N=draw(st.integers(2, 7)), x=draw(st.one_of(vec(q(-4, 4, 16), 4), vec(q(-60, 60, 4), 4))), p=draw(q(-3, 3, 16)), p2=draw(qpos(0.25, 4, 16)),
                y=draw(st.integers(0, 40)), abc=draw(vec(q(-2, 2, 8), 3)))


def check_grid(ctx, dt, T, ts, edt, eT):
    ctx.close(ctx.scalar(dt, 'dt'), edt, 'dt', rtol=1e-14)
    ctx.equal(int(T), eT, 'T')
    ctx.close(ts, edt * np.arange(1, eT + 1), 'time grid', rtol=1e-12)


def check_init1(ctx, g, N):
    w, m, v = [0.5, 0.5], [-0.5, 0.5], [0.05, 0.05]
    ctx.close(g.weights, np.array(w), 'initial weights', tol=0.)
    ctx.close(g.means, np.array(m), 'initial means', tol=0.)
    ctx.close(g.variances, np.array(v), 'initial variances', tol=0.)
    raw = np.array([float(sum(a * o.normal_raw_mp(b, s, 2 * N)[i] for a, b, s in zip(w, m, v))) for i in range(2 * N)])
    ctx.close(g.rms, raw, 'initial raw moments', atol=1e-13, rtol=1e-12)
    ctx.close(g.mean, 0., 'initial mean', atol=1e-14)
    ctx.close(g.variance, 0.3, 'initial variance', rtol=1e-13)
    if N >= 2:
        ctx.close(g.cms, raw, 'initial central moments', atol=1e-13, rtol=1e-12)
        ctx.close(g.scms, raw / math.sqrt(0.3) ** np.arange(2 * N), 'initial scaled moments', atol=1e-11, rtol=1e-12)


@PROP.sub('models', model_case(), quick=320, thorough=3000, shards=2)
def models(c, ctx):
    """Drift, dispersion, measurement probabilities, initial laws and time grids of the bundled models."""
    x = np.array(c['x'])
    ctx.label(c['model'])
    ctx.nt(np.all(x != 0))
    if c['model'] == 'benes':
        dt, T, ts, init, drift, disp, logistic, pmf, _ = ctx.call('benes_bernoulli', benes_bernoulli, c['N'])
        check_grid(ctx, dt, T, ts, 1e-2, 100)
        check_init1(ctx, init, c['N'])
        ctx.close(drift(jnp.asarray(x)), np.tanh(x), 'drift', rtol=1e-13)
        ctx.close(np.broadcast_to(np.asarray(disp(jnp.asarray(x)), dtype=float), (4,)), np.ones(4), 'dispersion')
        P = expit(x ** 3 / 5)
        ctx.close(logistic(jnp.asarray(x)), P, 'logistic', rtol=1e-12)
        ps = [ctx.arr(ctx.call('pmf', pmf, y, jnp.asarray(x)), (4,), 'pmf') for y in (0, 1, 0., 1.)]
        for a, e in zip(ps, (1 - P, P, 1 - P, P)):
            ctx.close(a, e, 'measurement probability', rtol=1e-9, atol=1e-14)
            ctx.true(np.all((a >= 0) & (a <= 1 + 1e-15)), 'not a probability')
        ctx.close(ps[0] + ps[1], np.ones(4), 'total probability', rtol=1e-13)
    elif c['model'] == 'well':
        dt, T, ts, init, drift, disp, emission, pmf, _ = ctx.call('well_poisson', well_poisson, 3., c['N'])
        check_grid(ctx, dt, T, ts, 1e-2, 1000)
        check_init1(ctx, init, c['N'])
        p = c['p']
        ctx.close(drift(jnp.asarray(x), p), x * (1 - p * x ** 2), 'drift', rtol=1e-12, atol=1e-13)
        ctx.close(np.broadcast_to(np.asarray(disp(jnp.asarray(x)), dtype=float), (4,)), np.ones(4), 'dispersion')
        lam = np.log1p(np.exp(c['p2'] * x))
        ctx.close(emission(jnp.asarray(x), c['p2']), lam, 'emission', rtol=1e-9, atol=1e-15)
        # the rate log(1 + exp(.)) is a few ulp of 1 off, which is relative for tiny rates only
        pois = lambda l: np.exp(xlogy(c['y'], l) - l - gammaln(c['y'] + 1))
        e = pois(lam)
        tol = 1e-8 * e + 1e-250 + np.maximum(np.abs(pois(lam + 1e-15) - e), np.abs(pois(np.maximum(lam - 1e-15, 0.)) - e))
        ctx.close(ctx.call('pmf', pmf, c['y'], jnp.asarray(x), c['p2']), e, 'measurement probability', tol=tol)
        tot = sum(np.asarray(pmf(jnp.arange(700)[:, None], jnp.asarray(x)[None], c['p2']), dtype=float))
        ctx.close(tot, np.ones(4), 'total probability', rtol=1e-10)
    elif c['model'] == 'prey':
        N = min(c['N'], 3)
        ind = np.array(o.multi_indices(2, 2 * N - 1))
        dt, T, ts, gs, drift, disp, emission, pmf, _ = ctx.call('prey_predator', prey_predator, ind)
        check_grid(ctx, dt, T, ts, 1e-3, 2000)
        X = x[:2]
        ctx.close(drift(jnp.asarray(X)), np.array([X[0] * (4 - 4 * X[1]), X[1] * (4 * X[0] - 4)]), 'drift', rtol=1e-12, atol=1e-13)
        ctx.close(disp(jnp.asarray(X)), np.diag(0.1 * X), 'dispersion', rtol=1e-13)
        P = expit(x ** 3 - 1)
        ctx.close(emission(jnp.asarray(x)), P, 'emission', rtol=1e-12)
        ps = [ctx.scalar(ctx.call('pmf', pmf, y, jnp.asarray(X)), 'pmf') for y in (0, 1)]
        ctx.close(np.array(ps), np.array([1 - P[0], P[0]]), 'measurement probability', rtol=1e-9, atol=1e-14)
        ctx.close(sum(ps), 1., 'total probability', rtol=1e-13)
        ctx.close(gs.weights, np.array([.5, .5]), 'initial weights', tol=0.)
        ctx.close(gs.means, np.ones((2, 2)), 'initial means', tol=0.)
        ctx.close(gs.covs, np.array([np.eye(2) * 1e-3, np.eye(2) * 2e-3]), 'initial covariances', rtol=1e-13)
        e = np.array([0.5 * (math.prod(float(o.normal_raw_mp(1., 1e-3, 8)[k]) for k in n) + math.prod(float(o.normal_raw_mp(1., 2e-3, 8)[k]) for k in n)) for n in ind.tolist()])
        ctx.close(gs.rms, e, 'initial raw moments', rtol=1e-12)
    else:
        a, b, cc = c['abc']
        args = (a, b, cc)
        drift, disp = ctx.call('satellite', satellite_orbital_stability, *args)
        X = x[:2]
        ctx.close(drift(jnp.asarray(X)), np.array([X[1], -b * X[1] - math.sin(X[0]) - cc * math.sin(2 * X[0])]), 'drift', rtol=1e-12, atol=1e-13)
        ctx.close(disp(jnp.asarray(X)), np.array([[0., 0.], [0., -a * b * X[1] - b * math.sin(X[0])]]), 'dispersion', rtol=1e-12, atol=1e-13)
        drift, disp = ctx.call('satellite', satellite_orbital_stability)
        ctx.close(drift(jnp.asarray(X)), np.array([X[1], -X[1] - math.sin(X[0]) - math.sin(2 * X[0])]), 'default drift', rtol=1e-12, atol=1e-13)


@lru_cache(maxsize=None)
def benes_sim():
    return benes_bernoulli()[-1]


@lru_cache(maxsize=None)
def well_sim(p):
    return well_poisson(p)[-1]


@lru_cache(maxsize=None)
def prey_sim(steps):
    r = prey_predator(np.array(o.multi_indices(2, 3)))
    f = (lambda k: r[-1](k)) if steps is None else (lambda k: r[-1](k, steps))
    return jax.jit(jax.vmap(f))


@st.composite
def sim_case(draw, model):
    return dict(model=model, x0=draw(q(-1.5, 1.5, 16)), key=draw(st.integers(0, 2 ** 31 - 1)), p=draw(st.sampled_from([3., 0.5])), steps=draw(st.sampled_from([None, 20, 2, 7])))


@PROP.sub('benes', sim_case('benes'), quick=12, thorough=60)
def benes(c, ctx):
    """Paths against the exact transition law of the Benes SDE."""
    n = 300
    f = jax.jit(jax.vmap(benes_sim(), in_axes=[None, 0]))
    keys = jax.random.split(jax.random.PRNGKey(c['key']), n)
    X = ctx.arr(ctx.call('simulate_trajectory', f, jnp.asarray(c['x0']), keys), (n, 100), 'trajectories')
    one = ctx.arr(ctx.call('simulate_trajectory', benes_sim(), jnp.asarray(c['x0']), keys[0]), (100,), 'trajectory')
    ctx.close(one, X[0], 'trajectory from the same key', atol=1e-8, rtol=1e-8)
    prev = np.hstack([np.full((n, 1), c['x0']), X[:, :-1]])

    def law(x, y, t):
        return expit(2 * x) * ndtr((y - x - t) / math.sqrt(t)) + expit(-2 * x) * ndtr((y - x + t) / math.sqrt(t))

    ctx.nt(True)
    ctx.label('benes')
    u = law(prev, X, 0.01)
    dkw(ctx, u, 'transitions', bias=2e-3)
    dkw(ctx, u[:, 0], 'first transitions', bias=2e-3)
    dkw(ctx, u[:, -1], 'last transitions', bias=2e-3)
    from scipy.special import ndtri
    z = ndtri(np.clip(u, 1e-16, 1 - 1e-16))
    martingale(ctx, z[:, 1:], z[:, :-1], 'lag 1', bias=1e-3)
    martingale(ctx, z, np.tanh(prev), 'drift', bias=1e-3)
    for k in (9, 99):
        dkw(ctx, law(c['x0'], X[:, k], 0.01 * (k + 1)), f'law after {k + 1} steps', bias=2e-3)


@PROP.sub('well', sim_case('well'), quick=8, thorough=40)
def well(c, ctx):
    n, dt, p = 40, 0.01, c['p']
    f = jax.jit(jax.vmap(well_sim(p), in_axes=[None, 0]))
    X = ctx.arr(ctx.call('simulate_trajectory', f, jnp.asarray(c['x0']), jax.random.split(jax.random.PRNGKey(c['key']), n)), (n, 1000), 'trajectories')
    prev = np.hstack([np.full((n, 1), c['x0']), X[:, :-1]])
    x = prev
    fx, f1, f2 = x * (1 - p * x ** 2), 1 - 3 * p * x ** 2, -6 * p * x
    m = x + fx * dt + (fx * f1 + 0.5 * f2) * dt ** 2 / 2
    v = dt + f1 * dt ** 2
    z = (X - m) / np.sqrt(np.maximum(v, dt / 4))
    ctx.nt(True)
    ctx.label('well', f'p={p}')
    dkw(ctx, ndtr(z), 'transitions', bias=5e-3)
    every_step(ctx, z, 'transition', bias=5e-3)
    martingale(ctx, z[:, 1:], z[:, :-1], 'lag 1', bias=5e-3)
    martingale(ctx, z, fx, 'drift', bias=5e-3)
    martingale(ctx, z, x, 'state', bias=5e-3)


@PROP.sub('prey', sim_case('prey'), quick=10, thorough=40)
def prey(c, ctx):
    n, T, dt, s = 100, 2000, 1e-3, 0.1
    x0, X, Y = ctx.call('simulate', prey_sim(c['steps']), jax.random.split(jax.random.PRNGKey(c['key']), n))
    x0, X = ctx.arr(x0, (n, 2), 'initial states'), ctx.arr(X, (n, T, 2), 'trajectories')
    Y = ctx.arr(Y, (n, T), 'measurements')
    more = 0.02 / (c['steps'] or 100)  # a coarse Milstein step is off by this much (in standard deviations)
    ctx.nt(True)
    ctx.label('prey', f"steps={c['steps']}")
    g = (x0 - 1.)
    dkw(ctx, np.ravel(0.5 * ndtr(g / math.sqrt(1e-3)) + 0.5 * ndtr(g / math.sqrt(2e-3))), 'initial states', bias=0.05)  # coordinates share the component
    l = np.log(np.concatenate([x0[:, None], X], axis=1))
    fl = lambda l: np.stack([4 - 4 * np.exp(l[..., 1]), 4 * np.exp(l[..., 0]) - 4], axis=-1) - s * s / 2
    prev = l[:, :-1]
    mid = prev + 0.5 * dt * fl(prev)
    z = (l[:, 1:] - prev - dt * fl(mid)) / (s * math.sqrt(dt))
    dkw(ctx, ndtr(z), 'transitions', bias=2e-3 + more)
    every_step(ctx, z, 'transition', bias=2e-3 + more)
    dkw(ctx, ndtr((z[..., 0] + z[..., 1]) / math.sqrt(2)), 'sums of coordinates', bias=2e-3 + more)
    martingale(ctx, z[:, 1:], z[:, :-1], 'lag 1', bias=1e-3 + more)
    martingale(ctx, z[..., 0], np.exp(prev[..., 1]) - 1, 'drift of the prey', bias=1e-3 + more)
    martingale(ctx, z[..., 1], np.exp(prev[..., 0]) - 1, 'drift of the predator', bias=1e-3 + more)
    ctx.true(np.all((Y == 0) | (Y == 1)), 'measurements not binary')
    P = expit(X[..., 0] ** 3 - 1)
    for r in (np.ones_like(P), P - 0.5, np.cos(np.arange(T) / 50.) * np.ones_like(P)):  # Hoeffding, given the path
        sm = float(np.sum(r * (Y - P)))
        ctx.true(abs(sm) <= math.sqrt(np.sum(r * r) * LOG / 2), 'measurements do not follow the emission probability', sum=sm)
    R = Y - P
    ctx.true(abs(float(np.sum(R[:, 1:] * R[:, :-1]))) <= math.sqrt(n * T * LOG / 2), 'measurements correlate')
