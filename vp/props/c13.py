from ..core import *
from .. import oracles as o, modelsnd as M, gen
import jax
import jax.numpy as jnp
import mpmath as mp
from functools import partial
from mfs.multi_dims.quadratures import moment_quadrature_nd
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
from mfs.one_dim.quadtures import moment_quadrature

PROP = Prop('C13', rule='dimension >= 2 and N >= 2', assumptions=['double precision (jax x64) is enabled', 'ill-conditioned moment matrices are inconclusive'])
CONF = [(1, 1), (1, 3), (1, 5), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (4, 2)]


@partial(jax.jit, static_argnums=(1, 2, 5, 6, 7))
def _q(ms, d, N, mean, scale, kind, sort, ldl):
    inds = gram_and_hankel_indices_graded_lexico(N, d)
    if kind == 0:
        return moment_quadrature_nd(ms, inds, sort_nodes=sort, ldl=ldl)
    if kind == 1:
        return moment_quadrature_nd(ms, inds, mean, sort_nodes=sort, ldl=ldl)
    return moment_quadrature_nd(ms, inds, mean, scale, sort_nodes=sort, ldl=ldl)


def quad(ctx, ms, d, N, mean, scale, kind, sort, ldl, name='quadrature', eager=False):
    s = math.comb(N - 1 + d, d)
    if eager:
        inds = gram_and_hankel_indices_graded_lexico(N, d)
        kw = dict(mean=jnp.asarray(mean)) if kind >= 1 else {}
        if kind == 2:
            kw['scale'] = jnp.asarray(scale)
        out = ctx.call(name, moment_quadrature_nd, jnp.asarray(ms), inds, sort_nodes=sort, ldl=ldl, **kw)
    else:
        out = ctx.call(name, _q, jnp.asarray(ms), d, N, jnp.asarray(mean), jnp.asarray(scale), kind, sort, ldl)
    return ctx.arr(out[0], (s ** d,), name + ' weights'), ctx.arr(out[1], (s ** d, d), name + ' nodes')


@st.composite
def case(draw):
    d, N = draw(st.sampled_from(CONF))
    return dict(d=d, N=N, dist=draw(M.dist(d)), mode=draw(st.sampled_from(['raw', 'central', 'scaled', 'any'])), c=draw(vec(q(-1, 1, 16), d)), s=draw(vec(qpos(0.3, 3, 16), d)),
                shift=draw(vec(q(-3, 3, 8), d)), zoom=draw(vec(st.sampled_from([1., 1., 0.1, 7.]), d)), sort=draw(st.booleans()), ldl=draw(st.booleans()), eager=draw(st.integers(0, 9)) == 0,
                su=draw(st.one_of(st.just([0] * d), vec(st.sampled_from([-24, -12, 0, 10]), d))))


def shifted(ds, t, z):
    """Law of z * X + t (per coordinate)."""
    return dict(d=ds['d'], m=(np.array(ds['m']) * z + t).tolist(), L=[(np.array(L) * np.array(z)[:, None]).tolist() for L in ds['L']], w=ds['w'])


def setup(c):
    d, N = c['d'], c['N']
    mi, _, _ = M.tables(d, N)
    # raw moments of a far shifted law are hopeless in double precision; the other representations must not care
    t = np.array(c['shift']) if c['mode'] != 'raw' else np.zeros(d)
    z = np.array(c['zoom']) if c['mode'] in ('scaled', 'any') else np.ones(d)
    ds = shifted(c['dist'], t, z)
    mean, std = M.mixture_mean_std(ds)
    kind = dict(raw=0, central=1, scaled=2, any=2)[c['mode']]
    m, s = mean, std
    if c['mode'] == 'any':
        m, s = mean + np.array(c['c']) * std, np.array(c['s']) * std
    if kind == 0:
        m, s = np.zeros(d), np.ones(d)
    if kind == 1:
        s = np.ones(d)
    return mi, ds, m, s, kind, M.mixture_moments(ds, mi, m, s)


@PROP.sub('reproduces_moments', case(), quick=450, shards=5)
def reproduces(c, ctx):
    d, N = c['d'], c['N']
    mi, ds, m, s, kind, ms = setup(c)
    w0, u0, kappa = M.rule(ms, d, N)
    tol = 1e-14 * kappa * 100 * N
    if tol > 1e-6:
        ctx.inconclusive('ill-conditioned')
    ctx.label(f'd={d} N={N}', c['mode'], 'ldl' if c['ldl'] else 'chol', 'sorted' if c['sort'] else 'unsorted')
    ctx.nt(d >= 2 and N >= 2)
    su = 2. ** np.array(c['su'], dtype=float)  # units of the coordinates: exact in floating point
    w, x = quad(ctx, ms * (np.prod(su ** mi, axis=1) if kind < 2 else 1.), d, N, m * su, s * su, kind, c['sort'], c['ldl'], eager=c['eager'])
    x = x / su
    u = (x - m) / s
    ctx.close(np.sum(w), 1., 'sum of weights', tol=1e-10 + tol)
    for i, n in enumerate(mi):
        v = np.prod(u ** n, axis=1)
        a = np.sum(np.abs(w) * np.prod(np.abs(u) ** n, axis=1))
        ctx.close(np.sum(w * v), ms[i], f'moment {tuple(int(k) for k in n)}', tol=tol * (a + 1) + 1e-14 * np.max(np.abs(m) / s) * (a + 1) * 10)
    # same measure as the defining construction, tested on functions that are not polynomials
    for f in (lambda t: np.cos(t @ np.arange(1, d + 1) * 0.5), lambda t: np.exp(-0.25 * np.sum(t ** 2, axis=1)), lambda t: np.sin(t[:, 0]) * t[:, -1]):
        ctx.close(np.sum(w * f(u)), np.sum(w0 * f(u0)), 'integral of a non-polynomial', tol=(tol * 100 + 1e-10) * (1 + np.sum(np.abs(w0 * f(u0))) + np.sum(np.abs(w0))))
    if c['sort']:
        for k in range(d):
            g = x[:, k].reshape([math.comb(N - 1 + d, d)] * d)
            ctx.true(np.all(np.diff(g, axis=k) >= -1e-12 * (1 + np.abs(g).max())), 'sorted nodes ascend along their axis')


@PROP.sub('one_dimension', case(), quick=200, shards=2)
def one_dim(c, ctx):
    """In one dimension the rule is the one-dimensional one, in every representation."""
    c = dict(c, d=1, N=min(c['N'] + 1, 6), dist=dict(d=1, m=[r[:1] for r in c['dist']['m']], L=[[[L[0][0]]] for L in c['dist']['L']], w=c['dist']['w']),
             c=c['c'][:1], s=c['s'][:1], shift=c['shift'][:1], zoom=c['zoom'][:1])
    N = c['N']
    mi, ds, m, s, kind, ms = setup(c)
    w0, u0, kappa = M.rule(ms, 1, N)
    if kappa > 1e7:
        ctx.inconclusive('ill-conditioned')
    ctx.nt(N >= 2)
    ctx.label(f'N={N}', c['mode'])
    w, x = quad(ctx, ms, 1, N, m, s, kind, c['sort'], c['ldl'])
    w1, x1 = ctx.call('1D quadrature', moment_quadrature, jnp.asarray(ms), *([] if kind == 0 else [float(m[0])] if kind == 1 else [float(m[0]), float(s[0])]), ldl=c['ldl'])
    i, j = np.argsort(x[:, 0]), np.argsort(np.asarray(x1))
    t = 1e-12 * kappa + 1e-10
    ctx.close(x[i, 0], np.asarray(x1)[j], 'nodes', tol=t * (s[0] * np.max(np.abs(u0)) + abs(m[0])))
    ctx.close(w[i], np.asarray(w1)[j], 'weights', tol=t)


@st.composite
def indep(draw):
    d, N = draw(st.sampled_from([(2, 2), (2, 3), (2, 4), (3, 2), (3, 3)]))
    return dict(d=d, N=N, dists=[draw(gen.dist1d(N + 1, kinds=('atoms', 'mix', 'normal', 'uniform'))) for _ in range(d)], a=draw(vec(q(-2, 2, 16), d)), ldl=draw(st.booleans()))


@PROP.sub('independent_coordinates', indep(), quick=200, shards=3)
def independent(c, ctx):
    """Product laws: the rule integrates products of one-variable functions like the product of the 1D Gauss rules."""
    d, N = c['d'], c['N']
    mi, _, _ = M.tables(d, N)
    one = [gen.normalise(gen.moments1d(e, 2 * N)) for e in c['dists']]
    sc = []
    for k in range(d):
        mu, sd = one[k][1], mp.sqrt(one[k][2] - one[k][1] ** 2)
        sc.append(o.tofloat(o.shift_scale_mp(one[k], mu, sd)))
    ms = np.array([math.prod(sc[k][n[k]] for k in range(d)) for n in mi])
    w0, u0, kappa = M.rule(ms, d, N)
    tol = 1e-12 * kappa
    if tol > 1e-6:
        ctx.inconclusive('ill-conditioned')
    ctx.nt()
    ctx.label(f'd={d} N={N}')
    w, x = quad(ctx, ms, d, N, np.zeros(d), np.ones(d), 2, False, c['ldl'])
    rules = [o.gauss_rule_np(sc[k], N) for k in range(d)]
    fs = [lambda t, a: np.cos(a * t + 0.3), lambda t, a: np.exp(-0.5 * (t - a) ** 2), lambda t, a: 1 / (1 + (t - a) ** 2)]
    for off in range(3):
        f = [fs[(k + off) % 3] for k in range(d)]
        got = np.sum(w * np.prod([f[k](x[:, k], c['a'][k]) for k in range(d)], axis=0))
        ex = math.prod(float(np.sum(rules[k][0] * f[k](rules[k][1], c['a'][k]))) for k in range(d))
        ctx.close(got, ex, 'product integrand', tol=tol * 100 + 1e-9)
    for k in range(d):  # marginals
        got = np.sum(w * fs[0](x[:, k], c['a'][k]))
        ctx.close(got, np.sum(rules[k][0] * fs[0](rules[k][1], c['a'][k])), f'marginal {k}', tol=tol * 100 + 1e-9)
