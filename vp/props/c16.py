from ..core import *
from .. import oracles as o, sde
import itertools
import jax
import jax.numpy as jnp
from functools import lru_cache
from mfs.multi_dims.moments import sde_cond_moments_euler_maruyama, sde_cond_moments_tme_normal, sde_cond_moments_tme
from mfs.one_dim import moments as one

PROP = Prop('C16', rule='at least two coordinates or a state-dependent dispersion, and a mixed or higher order moment',
            assumptions=['double precision (jax x64) is enabled', 'drift and dispersion in the ring of polynomials and sines'])
FORMS = ('raw', 'central', 'scaled')
# dimension, noises, 2N - 1 the highest degree, states and orders per call
CONFIG = {'1a': (1, 1, 3, 3, 6), '1b': (1, 2, 2, 1, 4), '2a': (2, 1, 2, 3, 10), '2b': (2, 3, 2, 2, 3), '3a': (3, 2, 2, 2, 20)}
KINDS = [('euler', 0), ('tme_normal', 1), ('tme_normal', 2), ('tme', 1), ('tme', 2)]


def indices(cfg, order):
    """The multi-indices given to the constructor: graded, or shuffled (any collection is allowed)."""
    d, w, N, k, z = CONFIG[cfg]
    ind = [v for v in itertools.product(range(2 * N), repeat=d) if sum(v) <= 2 * N - 1]
    ind.sort(key=lambda v: (sum(v), tuple(-u for u in v)))
    if order:
        ind = ind[::-1][::2] + ind[::-1][1::2]
    return np.array(ind)


def build(kind, order, P, dt, ind):
    f, g = (lambda x: sde.fn(P, x)), (lambda x: sde.gn(P, x))
    if kind == 'euler':
        return sde_cond_moments_euler_maruyama(f, g, dt, ind)
    if kind == 'tme_normal':
        return sde_cond_moments_tme_normal(f, g, dt, order, ind)
    return sde_cond_moments_tme(f, g, dt, order)


@lru_cache(maxsize=None)
def runner(kind, order, cfg, rev):
    ind = indices(cfg, rev)
    if rev:
        ind = tuple(tuple(int(u) for u in v) for v in ind)

    def run(P, dt, x, n, mean, scale):
        F = build(kind, order, P, dt, ind)
        return F[0](x, n), F[1](x, n, mean), F[2](x, n, mean, scale), F[3](x), F[4](x)

    return jax.jit(run)


@st.composite
def case(draw, group):
    kind, order, cfg = draw(st.sampled_from(group))
    d, w, N, k, z = CONFIG[cfg]
    m = draw(sde.sden(d, w))
    rev = int(cfg in ('1b', '2b'))
    ind = indices(cfg, rev)
    n = draw(st.permutations(range(len(ind)))) if z == len(ind) and draw(st.booleans()) else draw(vec(st.integers(0, len(ind) - 1), z))
    xs = draw(mat(q(-2, 2, 8), k, d))
    mean = draw(st.one_of(st.sampled_from(xs), vec(q(-2, 2, 8), d), st.just([0.] * d)))
    mean = [xs[0][i] if draw(st.integers(0, 3)) == 0 else v for i, v in enumerate(mean)]
    return dict(m=m, kind=kind, order=order, cfg=cfg, rev=rev, n=list(n), x=xs, mean=mean, scale=draw(vec(qpos(0.25, 4, 16), d)), dt=draw(qpos(0.02, 0.5, 64)))


def expected(c):
    d, w, N, k, z = CONFIG[c['cfg']]
    t = sde.tmen(c['m'])
    R, P = t.R, sde.paramsn(c['m'])
    ind = indices(c['cfg'], c['rev'])[c['n']]
    mean, scale, dt = np.array(c['mean']), np.array(c['scale']), c['dt']
    out = {f: (np.zeros((k, z)), np.zeros((k, z))) for f in FORMS}
    M, V, SM, SV = np.zeros((k, d)), np.zeros((k, d)), np.zeros((k, d)), np.zeros(k)
    for i, x in enumerate(np.array(c['x'])):
        if c['kind'] == 'euler':
            g = sde.gn_np(P, x)
            m, C, S = x + sde.fn_np(P, x) * dt, g @ g.T * dt, float(np.sum(np.abs(g)) ** 2 * dt)
            SM[i] = np.abs(x) + dt * (np.sum(np.abs(P['A'])) + np.sum(np.abs(P['C'])) + 2) * (1 + np.sum(np.abs(x))) ** 2
        else:
            m, C, S = t.mean_cov(c['order'], dt, x)
            SM[i] = [t.expect(R.x(j), c['order'], dt, x)[1] for j in range(d)]
        M[i], V[i], SV[i] = m, np.diagonal(C), S
        if c['kind'] == 'tme':
            for f in FORMS:
                cc = np.zeros(d) if f == 'raw' else mean
                P1 = [R.add(R.x(j), R.const(-cc[j])) for j in range(d)]
                cache = {}
                for j, n in enumerate(ind):
                    n = tuple(int(v) for v in n)
                    if n not in cache:
                        p = R.const(1.)
                        for u, e in zip(P1, n):
                            p = R.mul(p, R.power(u, e))
                        cache[n] = t.expect(p, c['order'], dt, x)
                    e, s = cache[n]
                    s += 1e-3 * math.prod((1 + abs(x[u]) + abs(cc[u])) ** n[u] for u in range(d))
                    sc = np.prod(scale ** np.array(n)) if f == 'scaled' else 1.
                    out[f][0][i, j], out[f][1][i, j] = e / sc, s / sc
        else:
            for f in FORMS:
                cc = np.zeros(d) if f == 'raw' else mean
                G = o.gauss_moments_exact(m - cc, (C + C.T) / 2)
                big = o.gauss_moments_exact(np.abs(m - cc) + SM[i] + np.abs(cc), np.full((d, d), S + 1e-3) + (S + 1e-3) * np.eye(d))
                for j, n in enumerate(ind):
                    n = tuple(int(v) for v in n)
                    sc = np.prod(scale ** np.array(n)) if f == 'scaled' else 1.
                    out[f][0][i, j], out[f][1][i, j] = float(G(n)) / sc, float(big(n)) / sc
    out['mean'], out['var'] = (M, SM), (V, SV[:, None] * np.ones((k, d)))
    return out


def run(c, ctx):
    J = lambda v: jnp.asarray(np.asarray(v, dtype=float))
    ind = indices(c['cfg'], c['rev'])
    n = jnp.asarray(ind[c['n']]) if c['kind'] == 'tme' else jnp.asarray(np.array(c['n']))
    P = {k: J(v) for k, v in sde.paramsn(c['m']).items()}
    return ctx.call('conditional moments', runner(c['kind'], c['order'], c['cfg'], c['rev']), P, J(c['dt']), J(c['x']), n, J(c['mean']), J(c['scale']))


def forms(c, ctx):
    d, w, N, k, z = CONFIG[c['cfg']]
    e = expected(c)
    ind = indices(c['cfg'], c['rev'])[c['n']]
    ctx.nt((d >= 2 or np.any(c['m']['M'])) and np.max(np.sum(ind, axis=1)) >= 2)
    ctx.label(f"{c['kind']} {c['order']}", f'd={d} w={w}', 'state at the centre' if list(c['mean']) in c['x'] else 'centre elsewhere')
    got = run(c, ctx)
    for f, g in zip(FORMS, got):
        ctx.close(g, e[f][0], f'{f} conditional moments', tol=1e-11 * e[f][1] + 1e-300)
    ctx.close(got[3], e['mean'][0], 'conditional mean', tol=1e-12 * (e['mean'][1] + 1e-3))
    ctx.close(got[4][0], e['mean'][0], 'mean of mean_var', tol=1e-12 * (e['mean'][1] + 1e-3))
    ctx.close(got[4][1], e['var'][0], 'conditional variances', tol=1e-12 * (e['var'][1] + 1e-6))
    if d == 1:  # the one-dimensional constructions (the dispersion as a scalar: w = 1)
        if w == 1 and c['kind'] != 'none':
            reduce1(c, ctx, got, e)


@lru_cache(maxsize=None)
def runner1(kind, order, N):
    def run(P, dt, x, n, mean, scale):
        f = lambda u: P['b'][0] + P['A'][0, 0] * u + P['C'][0, 0] * jnp.sin(u) + P['Q'][0] * u * u
        g = lambda u: P['L'][0, 0] + P['M'][0, 0] * u
        F = one.sde_cond_moments_euler(f, g, dt, N) if kind == 'euler' else one.sde_cond_moments_tme_normal(f, g, dt, order, N) if kind == 'tme_normal' else one.sde_cond_moments_tme(f, g, dt, order)
        return F[0](x, n), F[1](x, n, mean), F[2](x, n, mean, scale), F[3](x), F[4](x)

    return jax.jit(run)


def reduce1(c, ctx, got, e):
    d, w, N, k, z = CONFIG[c['cfg']]
    J = lambda v: jnp.asarray(np.asarray(v, dtype=float))
    P = {k: J(v) for k, v in sde.paramsn(c['m']).items()}
    n = indices(c['cfg'], c['rev'])[c['n']][:, 0]
    if c['kind'] == 'tme_normal' and np.any(e['var'][0] <= 1e-9 * e['var'][1]):
        return
    ref = ctx.call('one-dimensional conditional moments', runner1(c['kind'], c['order'], N), P, J(c['dt']), J(c['x'])[:, 0], jnp.asarray(n), J(c['mean'][0]), J(c['scale'][0]))
    for f, a, b in zip(FORMS, got, ref):
        ctx.close(a, np.asarray(b), f'{f} conditional moments against the one-dimensional ones', tol=1e-11 * e[f][1] + 1e-300)
    ctx.close(np.asarray(got[3])[:, 0], np.asarray(ref[3]), 'mean against the one-dimensional one', tol=1e-11 * (e['mean'][1][:, 0] + 1e-3))
    ctx.close(np.asarray(got[4][1])[:, 0], np.asarray(ref[4][1]), 'variance against the one-dimensional one', tol=1e-11 * (e['var'][1][:, 0] + 1e-3))


GROUPS = {'euler_small': [('euler', 0, '1a'), ('euler', 0, '1b'), ('euler', 0, '2a'), ('euler', 0, '2b')], 'euler_3': [('euler', 0, '3a')],
          'tme_normal_1': [('tme_normal', 1, '1a'), ('tme_normal', 1, '2b'), ('tme_normal', 2, '1b')], 'tme_normal_2': [('tme_normal', 2, '2a')], 'tme_normal_3': [('tme_normal', 2, '3a')],
          'tme_small': [('tme', 1, '1a'), ('tme', 1, '2a'), ('tme', 1, '2b'), ('tme', 2, '1b'), ('tme', 1, '3a')], 'tme_2': [('tme', 2, '2a'), ('tme', 2, '1a')], 'tme_3': [('tme', 2, '3a')]}
for _name, _g in GROUPS.items():
    PROP.sub(_name, case(_g), quick=130, thorough=2500, shards=1)(lambda c, ctx: forms(c, ctx))
