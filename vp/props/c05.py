from ..core import *
from .. import oracles as o, gen, models1d as M, modelsnd as MN, modelsg as MG, sde
from . import c03, c18, c19, c23
import jax
import jax.numpy as jnp
from functools import partial, lru_cache
from mfs.one_dim.filtering import moment_filter_rms, moment_filter_cms, moment_filter_scms
from mfs.classical_filters_smoothers.gfs import kf, ekf, sgp_filter, cd_ekf, cd_sgp_filter
from mfs.classical_filters_smoothers.brute_force import brute_force_filter

PROP = Prop('C05', rule='a record split in two non-empty parts (or differentiated) with an informative likelihood',
            assumptions=['double precision (jax x64) is enabled', 'runs that amplify a perturbation of 1e-12 of the initial state beyond 1e-5 are inconclusive',
                         'slopes are judged by finite differences of the likelihood; multidimensional moment filters are differentiated at moments whose coordinate matrices have '
                         'distinct eigenvalues (the eigenvalue decomposition has no derivative elsewhere)'])
T, K = 4, 2


class Breakdown(Violation):
    """A filter that returns numbers that are not finite."""


# ------------------------------------------------------------------------------------------------ filters as (theta, start, ys) -> (states, nell)
def f_moment1(static, theta, start, ys):
    mode, nm, stable, vecy, lik, noise = static
    p, idx = theta, (noise, lik)
    L = lambda y, x: M.jx_lik(p, idx, y, x, vecy)
    if mode == 'raw':
        ms, n = moment_filter_rms(lambda x, n: M.jx_cond(p, idx, x, n, 0., 1., nm), L, start[0], ys, stable=stable)
        return (ms,), n
    if mode == 'central':
        ms, m, n = moment_filter_cms(lambda x, n, c: M.jx_cond(p, idx, x, n, c, 1., nm), lambda x: M.jx_mean(p, x), L, start[0], start[1], ys, stable=stable)
        return (ms, m), n
    ms, m, s, n = moment_filter_scms(lambda x, n, c, s: M.jx_cond(p, idx, x, n, c, s, nm), lambda x: (M.jx_mean(p, x), M.jx_var(p, x)), L, start[0], start[1], start[2], ys, stable=stable)
    return (ms, m, s), n


def f_momentn(static, theta, start, ys):
    mode, d, N, stable, sig, vecy, lik = static
    P = dict(theta, lik=lik)
    r = MN.run_nd(mode, d, N, stable, sig, vecy, P, start[0], start[1] if len(start) > 1 else None, start[2] if len(start) > 2 else None, ys)
    return tuple(r[:-1]), r[-1]


def f_gauss(static, theta, start, ys):
    kind, opt, d = static
    P, dt = {k: v for k, v in theta.items() if k not in ('dt', 'w', 'xi')}, theta.get('dt')
    if kind == 'kf':
        r = kf(P['F'], P['QL'] @ P['QL'].T, P['H'], P['RL'] @ P['RL'].T, start[0], start[1], ys)
    elif kind == 'ekf':
        r = ekf(lambda x, t: MG.state(P, x, t, jnp), lambda x: MG.meas(P, x, jnp), start[0], start[1], dt, ys, fwd_jacobian=opt)
    elif kind == 'sgp':
        r = sgp_filter(lambda x, t: MG.state(P, x, t, jnp), lambda x: MG.meas(P, x, jnp), c18.make_rule(opt, d, theta['w'], theta['xi']), start[0], start[1], dt, ys)
    elif kind == 'cd_ekf':
        r = cd_ekf(lambda x: MG.drift(P, x, jnp), lambda x: c19.disp(P, x, jnp, False), lambda x: MG.meas(P, x, jnp), start[0], start[1], dt, ys, fwd_jacobian=opt)
    else:
        r = cd_sgp_filter(lambda x: MG.drift(P, x, jnp), P['L'], lambda x: MG.meas(P, x, jnp), c18.make_rule(opt, d, theta['w'], theta['xi']), start[0], start[1], dt, ys)
    return tuple(r[:2]), r[2]


def f_brute(static, theta, start, ys):
    method, steps, kind = static
    ps = brute_force_filter(lambda x: sde.f1(theta['a'], x), lambda x: sde.g1(theta['b'], x), lambda y, x: c23.lik(kind, theta['h'], y, x, jnp), start[0], theta['xs'], ys, theta['dt'],
                            integration_steps=steps, pred_method=method)
    return (ps,), jnp.zeros(())


FILTERS = dict(moment1=f_moment1, momentn=f_momentn, gauss=f_gauss, brute=f_brute)


@lru_cache(maxsize=None)
def runners(name, static):
    f = partial(FILTERS[name], static)
    last = lambda th, s, ys: jnp.ravel(f(th, s, ys)[1])[-1]
    return dict(plain=f, run=jax.jit(f), batch=jax.jit(jax.vmap(f, in_axes=(None, 0, 0))), params=jax.jit(jax.vmap(last, in_axes=(0, None, None))),
                grad=jax.jit(jax.grad(last)), jvp=jax.jit(lambda th, u, s, ys: jax.jvp(lambda t: last(t, s, ys), (th,), (u,))[1]))


def tree(x):
    return jax.tree_util.tree_map(lambda v: jnp.asarray(np.asarray(v, dtype=float)), x)


def nells(n, steps):
    """Cumulative values, or the final one only."""
    n = np.asarray(n, dtype=float)
    return n


def size_of(a):
    """Per-component sizes (maximum over time and lower components)."""
    m = np.max(np.abs(a), axis=0)
    return 1. + (np.maximum.accumulate(m) if m.ndim == 1 else np.max(m)) * np.ones_like(m)


def perturbed(start, seed=0):
    rng = np.random.default_rng(seed)
    out = []
    for a in start:
        e = rng.uniform(-1, 1, size=np.shape(a))
        if np.ndim(a) == 2:
            e = (e + e.T) / 2
        if np.ndim(a) == 1 and len(out) == 0:
            e = np.where(np.arange(len(a)) == 0, 0., e)  # the zeroth moment / any entry of a mean
        out.append(np.asarray(a) + 1e-12 * e * (np.abs(np.asarray(a)) + (1e-3 if np.ndim(a) else 1.)))
    return tuple(out)


def history(ctx, name, static, theta, start, ys, other, k=K, plain=False):
    """Prefix, restart, additivity, batching; `other` is a second record that shares the first k measurements."""
    R = runners(name, static)
    th, ys = tree(theta), np.asarray(ys, dtype=float)
    n = len(ys)
    S = tree(tuple(start))
    full, nf = ctx.call(f'{name} filter', R['run'], th, S, jnp.asarray(ys))
    full = [np.asarray(v, dtype=float) for v in full]
    nf = np.asarray(nf, dtype=float)
    ctx.true(all(v.shape[0] == n for v in full), 'one output per measurement')
    pert = perturbed(start)
    B = tuple(jnp.stack([a, b, a]) for a, b in zip(S, tree(pert)))
    ob, nb = ctx.call(f'{name} filter, batched', R['batch'], th, B, jnp.asarray(np.stack([ys, ys, other])))
    ob, nb = [np.asarray(v, dtype=float) for v in ob], np.asarray(nb, dtype=float)
    if not all(np.all(np.isfinite(v)) for v in full) or not np.all(np.isfinite(nf)):
        raise Breakdown('the recursion breaks down on a history that double precision resolves')
    tols = []
    for v, b in zip(full, ob):
        sz = size_of(v)
        amp = np.max(np.abs(b[1] - v))
        if not amp <= 1e-5 * np.max(sz):
            ctx.inconclusive('amplified perturbation')
        tols.append(100 * np.max(np.abs(b[1] - v), axis=0) + 1e-10 * sz + 20 * amp)
    tn = 100 * float(np.max(np.abs(nb[1] - nf))) + 1e-10 * (1 + float(np.max(np.abs(nf))))
    if not tn <= 1e-4 * (1 + np.max(np.abs(nf))):
        ctx.inconclusive('amplified perturbation')
    for v, b, t in zip(full, ob, tols):
        ctx.close(b[0], v, 'batched run', tol=t * np.ones_like(v))
        ctx.close(b[2][:k], v[:k], 'outputs before the records differ', tol=t * np.ones_like(v[:k]))
    ctx.close(nb[0], nf, 'likelihood of the batched run', tol=tn)
    pre, npre = ctx.call(f'{name} filter', R['run'], th, S, jnp.asarray(ys[:k]))
    suf, nsuf = ctx.call(f'{name} filter', R['run'], th, tuple(jnp.asarray(v[k - 1]) for v in full), jnp.asarray(ys[k:]))
    for v, a, b, t in zip(full, pre, suf, tols):
        ctx.close(a, v[:k], 'outputs of a prefix of the record', tol=t * np.ones_like(v[:k]))
        ctx.close(b, v[k:], 'outputs after a restart', tol=t * np.ones_like(v[k:]))
    npre, nsuf = np.asarray(npre, dtype=float), np.asarray(nsuf, dtype=float)
    if nf.ndim:
        ctx.close(npre, nf[:k], 'likelihoods of a prefix', tol=tn)
        ctx.close(nsuf + npre[-1], nf[k:], 'likelihoods after a restart', tol=2 * tn)
    else:
        ctx.close(npre + nsuf, nf, 'sum of the likelihoods of the parts', tol=2 * tn)
    if plain:
        out, no = ctx.call(f'{name} filter, not compiled', R['plain'], th, S, jnp.asarray(ys))
        for v, a, t in zip(full, out, tols):
            ctx.close(a, v, 'compiled and plain run', tol=t * np.ones_like(v))
        ctx.close(no, nf, 'likelihood of compiled and plain run', tol=tn)


def slope(ctx, name, static, theta, start, ys, seed, h=2. ** -9, fixed=(), gap=1.):
    """Derivatives of the likelihood with respect to the parameters against finite differences in a random direction."""
    R = runners(name, static)
    rng = np.random.default_rng(seed)
    if isinstance(theta, dict):
        u = {k: (rng.uniform(-1, 1, size=np.shape(v)) if k not in fixed else np.zeros(np.shape(v))) for k, v in theta.items()}
    else:
        u = rng.uniform(-1, 1, size=np.shape(theta))
    th, S, Y = tree(theta), tree(tuple(start)), jnp.asarray(np.asarray(ys, dtype=float))
    off = np.array([-4, -2, -1, 1, 2, 4]) * h
    batch = jax.tree_util.tree_map(lambda a, b: jnp.asarray(np.asarray(a)[None] + off.reshape((-1,) + (1,) * np.ndim(a)) * np.asarray(b)[None]), tree(theta), tree(u))
    f = np.asarray(ctx.call(f'{name} filter, batched', R['params'], batch, S, Y), dtype=float)
    if not np.all(np.isfinite(f)):
        raise Breakdown('the recursion breaks down on a history that double precision resolves')
    d1 = (8 * (f[3] - f[2]) - (f[4] - f[1])) / (12 * h)
    d2 = (8 * (f[4] - f[1]) - (f[5] - f[0])) / (24 * h)
    tol = 3 * abs(d1 - d2) + 1e-6 * (1 + abs(d1)) / gap
    if not tol <= 2e-3 * (1 + abs(d1)):
        ctx.inconclusive('not resolved by finite differences')
    g = ctx.call(f'{name} filter, differentiated', R['grad'], th, S, Y)
    if isinstance(theta, dict):
        got = sum(float(np.sum(np.asarray(g[k]) * u[k])) for k in theta if k not in fixed)
    else:
        got = float(np.sum(np.asarray(g) * u))
    ctx.close(got, d1, 'gradient of the likelihood', tol=tol)
    j = ctx.scalar(ctx.call(f'{name} filter, forward derivative', R['jvp'], th, tree(u), S, Y), 'forward derivative')
    ctx.close(j, got, 'forward and reverse derivative', tol=1e-7 * (1 + abs(got)) / gap)
    ctx.nt(abs(d1) > 1e-3)


# ------------------------------------------------------------------------------------------------ one-dimensional moment filters
CONF1 = [('raw', 4), ('raw', 7), ('central', 2), ('central', 6), ('scaled', 5), ('scaled', 8)]


@st.composite
def case1(draw, confs=CONF1):
    mode, nm = draw(st.sampled_from(confs))
    m = draw(M.model())
    stable = draw(st.booleans())
    c = dict(mode=mode, nm=nm, stable=stable, vecy=nm in (7,), model=m, dist=draw(gen.dist1d(nm // 2 + 1)), seed=draw(st.integers(0, 999)), plain=draw(st.integers(0, 7)) == 0)
    c['ys'] = [M.measurement(draw, m, c['vecy']) for _ in range(T)]
    c['other'] = c['ys'][:K] + [M.measurement(draw, m, c['vecy']) for _ in range(T - K)]
    return c


def moment1(c):
    f, mean0, scale0, _ = c03.initial(c, c['mode'])
    p, idx = M.pack(c['model'])
    start = (f, mean0, scale0)[:dict(raw=1, central=2, scaled=3)[c['mode']]]
    return (c['mode'], c['nm'], c['stable'], c['vecy'], c['model']['lik'], c['model']['noise']), np.asarray(p), start


def moment1_static(c):
    """lik and noise are static to keep derivatives simple; few values, to reuse compiled programs."""
    c['model'] = dict(c['model'], lik=(0, 1, 3, 4)[c['model']['lik'] % 4] if c['seed'] % 3 else 0, noise=(0, 2)[c['model']['noise'] % 2])
    if c['model']['lik'] == 1 and not c['vecy']:
        c['ys'], c['other'] = [float(v > 0) for v in c['ys']], [float(v > 0) for v in c['other']]
    return c


def guard1(c):
    """Raises Inconclusive when double precision does not resolve the recursion; consulted when runs disagree or break down."""
    raw0 = c03.initial(c, c['mode'])[3]
    ex, err = M.reference(c['model'], raw0, c['ys'], c['nm'], c['mode'])
    if not 500 * err + 1e-9 < 1e-5:
        raise Inconclusive('ill-conditioned')


def guarded(run, guard):
    try:
        run()
    except (Violation, Breakdown):
        guard()
        raise


def hist1(c, ctx):
    c = moment1_static(dict(c))
    static, p, start = moment1(c)
    ctx.label(c['mode'], f"nm={c['nm']}", 'ldl' if c['stable'] else 'chol', M.LIKS[c['model']['lik']])
    ctx.nt(c['model']['h1'] != 0)
    guarded(lambda: history(ctx, 'moment1', static, p, start, c['ys'], c['other'], plain=c['plain']), lambda: (guard1(c), guard1(dict(c, ys=c['other']))))


def slope1(c, ctx):
    c = moment1_static(dict(c))
    c['model']['v1'] = max(c['model']['v1'], 1 / 16)
    static, p, start = moment1(c)
    # the finite differences of an ill-conditioned recursion do not resolve
    ctx.label(c['mode'], 'ldl' if c['stable'] else 'chol', M.LIKS[c['model']['lik']])
    guarded(lambda: slope(ctx, 'moment1', static, p, start, c['ys'], c['seed']), lambda: guard1(c))


for _m in ('raw', 'central', 'scaled'):
    PROP.sub(f'{_m}_1d', case1([v for v in CONF1 if v[0] == _m]), quick=50, thorough=2000)(hist1)
    PROP.sub(f'{_m}_1d_slope', case1([(_m, 6)]), quick=25, thorough=1500)(slope1)


# ------------------------------------------------------------------------------------------------ multidimensional moment filters
@st.composite
def casen(draw, confs=(('raw', 2, 2), ('central', 2, 3), ('scaled', 2, 2), ('scaled', 3, 2), ('scaled', 2, 3))):
    mode, d, N = draw(st.sampled_from(confs))
    vecy = (mode, d, N) == ('central', 2, 3)
    y = (lambda: [draw(q(-2, 2, 16)), draw(q(-2, 2, 16))]) if vecy else (lambda: draw(q(-2, 2, 16)))
    c = dict(mode=mode, d=d, N=N, model=draw(MN.model(d)), dist=draw(MN.dist(d)), vecy=vecy, ys=[y() for _ in range(T)], seed=draw(st.integers(0, 999)), plain=draw(st.integers(0, 9)) == 0,
             stable=draw(st.booleans()))
    c['other'] = c['ys'][:K] + [y() for _ in range(T - K)]
    return c


def momentn(c):
    ms0, mean0, scale0 = MN.initial(c['dist'], c['d'], c['N'], c['mode'])
    P = MN.params(c['model'])
    P.pop('lik')
    start = (ms0, mean0, scale0)[:dict(raw=1, central=2, scaled=3)[c['mode']]]
    lik = 0 if c['seed'] % 2 else (1, 3)[c['model']['lik'] % 2]
    return (c['mode'], c['d'], c['N'], c['stable'], 'index' if c['stable'] else 'multi-index', c['vecy'], lik), P, start, lik


def guardn(c, lik):
    P = dict(MN.params(c['model']), lik=np.int64(lik))
    for ys in (c['ys'], c['other']):
        ex, err = MN.reference(P, MN.start_of(c['dist'], c['d'], c['N']), c['d'], c['N'], ys, c['vecy'])
        if not 300 * err + 1e-9 < 1e-6:
            raise Inconclusive('ill-conditioned')


def histn(c, ctx):
    static, P, start, lik = momentn(c)
    ctx.label(c['mode'], f"d={c['d']} N={c['N']}", 'ldl' if c['stable'] else 'chol')
    ctx.nt(np.any(c['model']['h']))
    guarded(lambda: history(ctx, 'momentn', static, P, start, c['ys'], c['other'], plain=c['plain']), lambda: guardn(c, lik))


def eigen_gap(P, c, lik):
    gaps, orig = [], MN.rule

    def rule(ms, d, N):
        _, G, Hs = MN.tables(d, N)
        try:
            Li = np.linalg.inv(np.linalg.cholesky(ms[G]))
        except np.linalg.LinAlgError:
            raise Inconclusive('moment matrix not positive definite')
        for H in Hs:
            gaps.append(float(np.min(np.diff(np.linalg.eigvalsh(Li @ ms[H] @ Li.T)))))
        return orig(ms, d, N)

    MN.rule = rule
    try:
        MN.ref_filter(dict(P, lik=lik), MN.start_of(c['dist'], c['d'], c['N']), c['d'], c['N'], c['ys'], c['vecy'])
    finally:
        MN.rule = orig
    return min(gaps)


def slopen(c, ctx):
    c = dict(c, vecy=False)
    static, P, start, lik = momentn(c)
    gap = eigen_gap(P, c, lik)
    if gap < 1e-3:
        ctx.inconclusive('coordinate matrices with nearly equal eigenvalues')
    ctx.label(c['mode'], 'ldl' if c['stable'] else 'chol')
    guarded(lambda: slope(ctx, 'momentn', static, P, start, c['ys'], c['seed'], fixed=('p',), h=2. ** -10, gap=min(1., gap * 10)), lambda: guardn(c, lik))


for _m, _c in dict(raw=[('raw', 2, 2)], central=[('central', 2, 3)], scaled=[('scaled', 2, 2), ('scaled', 3, 2)]).items():
    PROP.sub(f'{_m}_nd', casen(_c), quick=40, thorough=1200)(histn)
    PROP.sub(f'{_m}_nd_slope', casen([(_m, 2, 2)]), quick=12, thorough=800)(slopen)


# ------------------------------------------------------------------------------------------------ Kalman-type filters
CONFG = [('kf', None, 2, 1), ('kf', None, 3, 2), ('ekf', False, 2, 1), ('ekf', True, 2, 2), ('sgp', 'cubature', 2, 1), ('sgp', 'gh3', 1, 2), ('cd_ekf', False, 1, 1),
         ('cd_ekf', True, 2, 2), ('cd_sgp', 'cubature', 2, 1), ('cd_sgp', 'gh3', 1, 1)]


@st.composite
def caseg(draw, confs):
    kind, opt, dx, dy = draw(st.sampled_from(confs))
    ys = draw(mat(q(-3, 3, 16), T, dy))
    return dict(kind=kind, opt=opt, dx=dx, dy=dy, model=draw(MG.model(dx, dy)), F=draw(mat(q(-1.25, 1.25, 16), dx, dx)), L=draw(mat(q(-1, 1, 16), dx, 2)), l1=draw(q(0, 0.75, 8)),
                m0=draw(vec(q(-2, 2, 16), dx)), P0=draw(tril(dx, off=0.5, lo=0.5, hi=1.5)), dt=draw(qpos(0.05, 0.5, 32)), ys=ys, other=ys[:K] + draw(mat(q(-3, 3, 16), T - K, dy)),
                seed=draw(st.integers(0, 999)), plain=draw(st.integers(0, 9)) == 0)


def gauss_args(c):
    m = c['model']
    if c['kind'] == 'kf':
        theta = dict(F=np.array(c['F']), QL=np.array(m['SL']), H=np.array(m['H']), RL=np.array(m['RL']))
    else:
        theta = MG.params(m)
        theta.update(dt=np.float64(c['dt']))
        if c['kind'].startswith('cd'):
            theta.update(L=np.array(c['L']), l1=np.float64(c['l1']))
            theta['A'] = theta['A'] - 0.5 * np.eye(c['dx'])
        if c['kind'].endswith('sgp'):
            w, xi = MG.sigma_rule(c['opt'], c['dx'])
            theta.update(w=w, xi=xi)
    static = (c['kind'], c['opt'], c['dx'])
    return static, theta, (np.array(c['m0']), spd(c['P0']))


def histg(c, ctx):
    m = c['model']
    static, theta, start = gauss_args(c)
    ctx.label(c['kind'], f"dx={c['dx']} dy={c['dy']}")
    ctx.nt(np.any(m['H']))
    try:
        history(ctx, 'gauss', static, theta, start, c['ys'], c['other'], plain=c['plain'])
        slope(ctx, 'gauss', static, theta, start, c['ys'], c['seed'], fixed=('w', 'xi', 'dt'), h=2. ** -10)
    except Breakdown:  # an explicit Runge-Kutta stage may leave the positive definite cone
        if c['kind'].startswith('cd'):
            ctx.inconclusive('covariance not positive definite')
        raise


for _k in ('kf', 'ekf', 'sgp', 'cd_ekf', 'cd_sgp'):
    PROP.sub(_k, caseg([v for v in CONFG if v[0] == _k]), quick=40, thorough=1500)(histg)


# ------------------------------------------------------------------------------------------------ brute force
@st.composite
def caseb(draw):
    c = draw(sde.sde1())
    method, steps, kind = draw(st.sampled_from([('chapman-euler', 2, 'normal'), ('chapman-tme-2', 1, 'bernoulli'), ('chapman-tme-3', 1, 'normal'), ('kolmogorov', 8, 'normal'), ('chapman-tme-1', 3, 'vector')]))
    y = dict(normal=q(-2, 2, 8), bernoulli=st.integers(0, 1).map(float), vector=vec(q(-1, 2, 8), 2))[kind]
    ys = draw(vec(y, T))
    c.update(method=method, steps=steps, kind=kind, ys=ys, other=ys[:K] + draw(vec(y, T - K)), h=[draw(q(-1.5, 1.5, 8)), draw(q(-1, 1, 8)), draw(qpos(0.2, 2, 8))], n=48, half=draw(qpos(2, 4, 4)), shift=0.,
             uneven=method != 'kolmogorov' and draw(st.booleans()), m0=draw(q(-1, 1, 8)), v0=draw(qpos(0.2, 1.5, 8)), bimodal=draw(st.booleans()), mass=1., dt=draw(qpos(0.02, 0.3, 64)))
    return c


@PROP.sub('brute_force', caseb(), quick=50, thorough=1500)
def histb(c, ctx):
    xs = c23.grid(c)
    theta = dict(a=np.array(c['a']), b=np.array(c['b']), h=np.array(c['h']), xs=xs, dt=np.float64(c['dt']))
    c23.reference(dict(c, const=False), c23.initial(c, xs), xs, np.array(c['ys'], dtype=float))  # inconclusive when there is no such density
    ctx.label(c['method'])
    ctx.nt(c['h'][0] != 0)
    history(ctx, 'brute', (c['method'], c['steps'], c['kind']), theta, (c23.initial(c, xs),), c['ys'], c['other'])


# ------------------------------------------------------------------------------------------------ long records
LONG, PIECE = 48, 4


def long_history(ctx, name, static, theta, start, ys):
    """Each stretch of four steps of a long record is a run of its own, started from the output before it (the short runs are
    judged by the other checks, so the long one is right by induction)."""
    R = runners(name, static)
    th, S = tree(theta), tree(tuple(start))
    ys = np.asarray(ys, dtype=float)
    full, nf = ctx.call(f'{name} filter, long record', R['run'], th, S, jnp.asarray(ys))
    full, nf = [np.asarray(v, dtype=float) for v in full], np.asarray(nf, dtype=float)
    ctx.true(all(v.shape[0] == len(ys) for v in full), 'one output per measurement')
    k = len(ys) // PIECE
    starts = [np.stack([np.asarray(s)] + [v[PIECE * j - 1] for j in range(1, k)]) for s, v in zip(S, full)]
    ok = np.all([np.isfinite(s).reshape(k, -1).all(axis=1) for s in starts], axis=0)
    if not ok.all():
        starts = [np.where(ok.reshape((k,) + (1,) * (s.ndim - 1)), s, s[:1]) for s in starts]
    pert = [np.stack(v) for v in zip(*[perturbed([s[j] for s in starts], j) for j in range(k)])]
    B = tuple(jnp.asarray(np.concatenate([a, b])) for a, b in zip(starts, pert))
    pieces = ys.reshape((k, PIECE) + ys.shape[1:])
    out, no = ctx.call(f'{name} filter, batched', R['batch'], th, B, jnp.asarray(np.concatenate([pieces, pieces])))
    out, no = [np.asarray(v, dtype=float) for v in out], np.asarray(no, dtype=float)
    judged, total, ttot = 0, 0., 0.
    for j in range(k):
        here = slice(PIECE * j, PIECE * (j + 1))
        if not ok[j]:
            ctx.inconclusive('the recursion breaks down')
        if not all(np.all(np.isfinite(v[j])) for v in out) or not np.all(np.isfinite(no[j])):
            ctx.inconclusive('the recursion breaks down')
        dn = float(np.max(np.abs(no[j] - no[j + k])))
        tn = 100 * dn + 1e-10 * (1 + float(np.max(np.abs(no[j]))) + float(np.max(np.abs(nf))) * 1e-3)
        amps = [np.max(np.abs(v[j] - v[j + k])) for v in out]
        sizes = [size_of(v[j]) for v in out]
        if not all(a <= 1e-6 * np.max(z) for a, z in zip(amps, sizes)) or not tn <= 1e-4:
            ctx.inconclusive('amplified perturbation')
        for v, p, a, z in zip(full, out, amps, sizes):
            ctx.close(v[here], p[j], f'steps {PIECE * j} to {PIECE * (j + 1)} of a long record', tol=(100 * a + 1e-9 * z) * np.ones_like(p[j]))
        if nf.ndim:
            base = nf[PIECE * j - 1] if j else 0.
            ctx.close(nf[here] - base, no[j], f'likelihood increments {PIECE * j} to {PIECE * (j + 1)} of a long record', tol=tn)
        total, ttot, judged = total + (no[j][-1] if np.ndim(no[j]) else no[j]), ttot + tn, judged + 1
    if judged == k:
        ctx.close(nf[-1] if nf.ndim else nf, total, 'likelihood of a long record', tol=ttot)


def record(seed, shape):
    rng = np.random.default_rng(seed)
    return rng.integers(-32, 33, size=shape) / 16 + (rng.random(shape) < 0.05) * rng.integers(-8, 9, size=shape)


@st.composite
def caselong(draw):
    fam = draw(st.sampled_from(['moment1', 'moment1', 'momentn', 'gauss', 'gauss', 'brute']))
    if fam == 'moment1':
        c = draw(case1([('raw', 4), ('central', 6), ('scaled', 8)]))
    elif fam == 'momentn':
        c = draw(casen([('scaled', 2, 2), ('raw', 2, 2)]))
    elif fam == 'gauss':
        c = draw(caseg(CONFG[::2] + CONFG[-1:]))
    else:
        c = draw(caseb())
    c = dict(c, fam=fam, rec=draw(st.integers(0, 9999)))
    return c


@PROP.sub('long_record', caselong(), quick=72, thorough=2000, shards=2)
def longrec(c, ctx):
    if c['fam'] == 'moment1':
        c = moment1_static(dict(c))
        c['model'] = dict(c['model'], a1=c['model']['a1'] / 2, a2=c['model']['a2'] / 4)
        static, p, start = moment1(c)
        ys = record(c['rec'], (LONG, 2) if c['vecy'] else (LONG,))
        if c['model']['lik'] == 1 and not c['vecy']:
            ys = (ys > 0) * 1.
        ctx.label(c['mode'] + ' 1d')
        args = ('moment1', static, p, start)
    elif c['fam'] == 'momentn':
        static, P, start, lik = momentn(c)
        ys = record(c['rec'], (LONG,))
        ctx.label(c['mode'] + ' nd')
        args = ('momentn', static, P, start)
    elif c['fam'] == 'gauss':
        c = dict(c, F=(np.array(c['F']) / 2).tolist())
        static, theta, start = gauss_args(c)
        ys = record(c['rec'], (LONG, c['dy']))
        ctx.label(c['kind'])
        args = ('gauss', static, theta, start)
    else:
        xs = c23.grid(c)
        theta = dict(a=np.array(c['a']), b=np.array(c['b']), h=np.array(c['h']), xs=xs, dt=np.float64(c['dt']))
        ys = record(c['rec'], (LONG, 2) if c['kind'] == 'vector' else (LONG,))
        if c['kind'] == 'bernoulli':
            ys = (ys > 0) * 1.
        ctx.label(c['method'])
        args = ('brute', (c['method'], c['steps'], c['kind']), theta, (c23.initial(c, xs),))
    ctx.nt(True)
    long_history(ctx, *args, ys)
