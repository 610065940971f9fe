from ..core import *
from .. import oracles as o, gen
import jax
import jax.numpy as jnp
import mpmath as mp
from functools import partial
from mfs.one_dim.quadtures import moment_quadrature, hankel_indices

PROP = Prop('C01', rule='n >= 2 nodes and a tolerance tighter than 1e-4 of the spread of the distribution',
            assumptions=['double precision (jax x64) is enabled',
                         'moment sequences whose Gram matrix is too ill-conditioned for double precision are inconclusive'])
EPS = 2.2e-16


@partial(jax.jit, static_argnums=(3, 4))
def _jit(ms, mean, scale, sort, ldl):
    return moment_quadrature(ms, mean, scale, sort_nodes=sort, ldl=ldl)


def rule(ctx, ms, mean, scale, sort, ldl, jit, n, name):
    if jit:
        out = ctx.call(name, _jit, jnp.asarray(ms), mean, scale, sort, ldl)
    else:
        kw = {}
        if mean is not None:
            kw['mean'] = mean
        if scale is not None:
            kw['scale'] = scale
        if sort:
            kw['sort_nodes'] = True
        if ldl:
            kw['ldl'] = True
        out = ctx.call(name, moment_quadrature, jnp.asarray(ms), **kw)
    ctx.true(isinstance(out, tuple) and len(out) == 2, f'{name}: returns (weights, nodes)')
    w, x = ctx.arr(out[0], (n,), name + ' weights'), ctx.arr(out[1], (n,), name + ' nodes')
    return w, x


@st.composite
def case(draw, nmax=8, kinds=None):
    n = draw(st.integers(1, nmax) if nmax < 8 else st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(9, 12)))
    d = draw(gen.dist1d(n, kinds) if kinds else gen.dist1d(n))
    return dict(n=n, dist=d, mode=draw(st.sampled_from(['raw', 'central', 'scaled', 'anyscale'])),
                c=draw(q(-20, 20, 16)), s=draw(qpos(0.05, 8, 32)), sort=draw(st.booleans()), ldl=draw(st.booleans()),
                jit=draw(st.booleans()), shift=draw(st.sampled_from([0., 0., 0., 5., -30., 1000.])),
                zoom=draw(st.sampled_from([1., 1., 1., 0.01, 100., 2. ** -20, 2. ** 20])), zero=draw(st.integers(0, 3)) == 0)


def setup(c):
    with mp.workdps(130):
        return _setup(c)


def affine(c):
    """The distribution under test is z * X + t; t may put its mean at exactly zero."""
    with mp.workdps(130):
        z = mp.mpf(c['zoom'])
        if c['zero'] and c['mode'] != 'raw':
            return z, -z * gen.normalise(gen.moments1d(c['dist'], 2))[1]
        t = c['shift'] if c['mode'] != 'raw' else min(max(c['shift'], -2.), 2.)
        return z, mp.mpf(t) * (z if c['zoom'] not in (1., 0.01, 100.) else 1)


def _setup(c):
    """Exact moments (about the chosen centre / at the chosen scale) and the exact rule in state space."""
    n = c['n']
    ms = gen.normalise(gen.moments1d(c['dist'], 2 * n))
    z, t = affine(c)
    ms = o.shift_scale_mp(ms, -t / z, 1 / z)
    mean = 0. if c['zero'] and c['mode'] != 'raw' else float(ms[1])
    if c['mode'] == 'raw':
        mean_, scale_, rep = None, None, ms
    elif c['mode'] == 'central':
        mean_, scale_ = mean, None
        rep = o.shift_scale_mp(ms, mean, 1)
    else:
        var = float(ms[2] - ms[1] ** 2) if n > 1 else 1.
        scale_ = math.sqrt(var) if c['mode'] == 'scaled' and var > 0 else c['s'] * float(z)
        mean_ = mean
        rep = o.shift_scale_mp(ms, mean, scale_)
    f = o.tofloat(rep)
    frep = [mp.mpf(v) for v in f]  # the numbers the code really gets
    kappa = o.hankel_cond(f, n)
    if kappa > 1e12:
        raise Inconclusive('ill-conditioned')
    w, x = o.gauss_rule_mp(frep, n)
    return ms, mean_, scale_, f, o.tofloat(w), o.tofloat(x), kappa


def tolerances(n, x, kappa):
    spread = max(np.max(np.abs(x)), 1e-3 if n == 1 else 1e-300)
    gap = np.min(np.diff(x)) if n > 1 else spread
    e = 2000 * EPS * kappa + 1e-12
    return e * spread, e * spread / gap + 1e-12, spread


@PROP.sub('gauss_rule', case(), quick=900, shards=5)
def gauss_rule(c, ctx):
    n = c['n']
    ms, mean, scale, f, w, x, kappa = setup(c)
    tx, tw, spread = tolerances(n, x, kappa)
    if not (tx < 1e-4 * spread and tw < 1e-3):
        ctx.inconclusive('ill-conditioned')
    ctx.label(f'n={n}', c['mode'], c['dist']['kind'], 'ldl' if c['ldl'] else 'chol')
    ctx.nt(n >= 2)
    W, X = rule(ctx, f, mean, scale, c['sort'], c['ldl'], False if (mean is None or scale is None) else c['jit'], n, 'quadrature')
    m, s = mean or 0., scale or 1.
    ctx.label(f'zoom {c["zoom"]:.2g}', 'zero mean' if mean == 0. else 'mean')
    U = (X - m) / s  # back in the units of the given moments
    # rounding of m + s * u
    tx = tx + 8 * EPS * (abs(m) / s)
    tw = tw + 8 * EPS * (abs(m) / s)
    if c['sort']:
        ctx.true(np.all(np.diff(X) >= 0), 'sorted nodes must ascend', nodes=X)
    i = np.argsort(U)
    ctx.close(U[i], x, 'nodes vs the exact Gauss rule', tol=tx)
    ctx.close(W[i], w, 'weights vs the exact Gauss rule', tol=tw)
    ctx.true(np.all(W > -1e-12), 'weights must be non-negative', weights=W)
    ctx.close(np.sum(W), 1., 'sum of weights', tol=1e-10)
    # reproduction of every supplied moment
    for k in range(2 * n):
        a = np.sum(np.abs(W) * np.abs(U) ** k)
        t = tx * k * np.sum(np.abs(W) * (np.abs(U) + tx) ** max(k - 1, 0)) + tw * np.sum((np.abs(U) + tx) ** k) + 1e-11 * a
        t = min(t, 1e-3 * a + 1e-9 * spread ** k if kappa < 1e8 else t) + 8 * EPS * abs(m) / s * k * (np.max(np.abs(U)) + tx) ** max(k - 1, 0)
        ctx.close(np.sum(W * U ** k), f[k], f'moment {k} reproduced by the rule', tol=t)
    lo, hi = gen.hull(c['dist'])
    z, tt = map(float, affine(c))
    slack = (tx * s) + 1e-9 * (abs(m) + s)
    xx = x * s + m  # the moments are rounded to double, which can push the exact rule of the rounded moments outside
    slack += max(0., lo * z + tt - xx[0] if lo is not None else 0., xx[-1] - hi * z - tt if hi is not None else 0.)
    if lo is not None:
        ctx.true(np.min(X) >= lo * z + tt - slack, 'nodes inside the support', nodes=X)
    if hi is not None:
        ctx.true(np.max(X) <= hi * z + tt + slack, 'nodes inside the support', nodes=X)


@st.composite
def atoms(draw):
    n = draw(st.integers(1, 7))
    return dict(n=n, x=draw(separated(n, 0.25, 1.5, -2, 2)), w=draw(simplex(n)), ldl=draw(st.booleans()),
                sort=draw(st.booleans()), mode=draw(st.sampled_from(['raw', 'central', 'scaled'])))


@PROP.sub('atoms_recovered', atoms(), quick=400, shards=2)
def atoms_recovered(c, ctx):
    """An n-atom distribution is recovered by its own n-point rule."""
    n = c['n']
    w, x = np.array(c['w']), np.array(c['x'])
    ms = gen.normalise(o.atom_moments_mp(c['w'], c['x'], 2 * n))
    mean = scale = None
    if c['mode'] != 'raw':
        mean = float(ms[1])
        scale = math.sqrt(max(float(ms[2] - ms[1] ** 2), 0.)) if c['mode'] == 'scaled' and n > 1 else None
        ms = o.shift_scale_mp(ms, mean, scale or 1)
    f = o.tofloat(ms)
    kappa = o.hankel_cond(f, n)
    tx, tw, spread = tolerances(n, (x - (mean or 0.)) / (scale or 1.), kappa)
    # the moments themselves are rounded to double
    if not (tx < 1e-4 * spread and tw < 1e-2):
        ctx.inconclusive('ill-conditioned')
    ctx.nt(n >= 2)
    ctx.label(f'n={n}', c['mode'])
    W, X = rule(ctx, f, mean, scale, c['sort'], c['ldl'], False, n, 'quadrature')
    i = np.argsort(X)
    ctx.close(X[i], x, 'atoms', tol=10 * tx * (scale or 1.) + 1e-11 * (1 + np.max(np.abs(x))))
    ctx.close(W[i], w / np.sum(w), 'atom weights', tol=10 * tw + 1e-11)


@PROP.sub('representations', case(nmax=6), quick=300, shards=2)
def representations(c, ctx):
    """raw / central / scaled / any scale / LDL / Cholesky / sorted / unsorted: one and the same rule."""
    n = c['n']
    ms = gen.normalise(gen.moments1d(c['dist'], 2 * n))
    if c['zero']:
        ms = o.shift_scale_mp(ms, ms[1], 1)
    mean = float(ms[1])
    std = math.sqrt(float(ms[2] - ms[1] ** 2)) if n > 1 else 1.
    reps = {'raw': (None, None), 'central': (mean, None), 'scaled': (mean, std), 'off-centre': (c['c'] / 10 + mean, c['s'])}
    out, tol = {}, {}
    for k, (m, s) in reps.items():
        f = o.tofloat(o.shift_scale_mp(ms, m or 0., s or 1.))
        kappa = o.hankel_cond(f, n)
        if kappa > 1e12:
            tol[k] = (1., 1.)
            continue
        w, x = o.gauss_rule_mp([mp.mpf(v) for v in f], n)
        x = o.tofloat(x)
        tx, tw, spread = tolerances(n, x, kappa)
        tol[k] = (tx * (s or 1.) + 1e-12 * abs(m or 0), tw)
        if not (tx < 1e-4 * spread and tw < 1e-3):
            continue
        for ldl in (False, True):
            W, X = rule(ctx, f, m, s, c['sort'], ldl, False, n, f'{k} quadrature')
            i = np.argsort(X)
            out[k, ldl] = (W[i], X[i])
    keys = list(out)
    if len(keys) < 4:
        ctx.inconclusive('ill-conditioned')
    ctx.nt(n >= 2)
    ctx.label(f'n={n}', f'{len(keys)} rules')
    k0 = min(keys, key=lambda k: tol[k[0]][0])
    for k in keys:
        t = [10 * (a + b) for a, b in zip(tol[k[0]], tol[k0[0]])]
        ctx.close(out[k][1], out[k0][1], f'nodes of {k} vs {k0}', tol=t[0])
        ctx.close(out[k][0], out[k0][0], f'weights of {k} vs {k0}', tol=t[1])


@PROP.sub('hankel_tables', st.fixed_dictionaries(dict(n=st.integers(1, 40))), quick=40, thorough=40)
def hankel_tables(c, ctx):
    n = c['n']
    out = ctx.call('hankel index tables', hankel_indices, n)
    g, h = ctx.arr(out[0], (n, n), 'Gram table'), ctx.arr(out[1], (n, n), 'shifted table')
    i = np.arange(n)
    ctx.nt(n > 1)
    ctx.true(np.array_equal(g, i[:, None] + i[None, :]), 'Gram table is i + j', n=n)
    ctx.true(np.array_equal(h, i[:, None] + i[None, :] + 1), 'shifted table is i + j + 1', n=n)
