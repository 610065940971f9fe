from ..core import *
from .. import oracles as o
import itertools
import jax
import jax.numpy as jnp
from mfs.classical_filters_smoothers.quadratures import SigmaPoints, gaussian_expectation

PROP = Prop('C20', rule='a polynomial of degree at least two',
            assumptions=['double precision (jax x64) is enabled', 'Gauss-Hermite orders up to 30 (roots of the Hermite polynomial are computed from its coefficients, '
                         'whose conditioning is allowed for above order 16)'])
MAXP = {1: 30, 2: 12, 3: 6, 4: 4, 5: 3}


def slack(p):
    """Loss of accuracy of polynomial roots with the order."""
    return 1e-12 if p <= 12 else 1e-12 * 1.5 ** (p - 12)


def make(c):
    return SigmaPoints.cubature(c['d']) if c['rule'] == 'cubature' else (SigmaPoints.gauss_hermite(c['d']) if c.get('default') else SigmaPoints.gauss_hermite(c['d'], c['p']))


@st.composite
def rule(draw, maxp=None):
    if draw(st.integers(0, 3)) == 0:
        return dict(rule='cubature', d=draw(st.integers(1, 9)), p=2)
    d = draw(st.integers(1, 5))
    p = draw(st.integers(1, min(MAXP[d], maxp or 99)))
    return dict(rule='gh', d=d, p=p, default=p == 3)


def gauss1(n):
    return 0. if n % 2 else float(math.prod(range(n - 1, 0, -2)))


@st.composite
def structure_case(draw):
    c = draw(rule())
    if c['rule'] == 'gh':
        c['n'] = draw(st.lists(vec(st.integers(0, 2 * c['p'] - 1), c['d']), min_size=1, max_size=12))
    else:
        c['n'] = [v for v in itertools.product(range(4), repeat=min(c['d'], 4)) if sum(v) <= 3]
        c['n'] = [list(v) + [0] * (c['d'] - len(v)) for v in c['n']]
        r = draw(st.randoms(use_true_random=False))
        for v in c['n']:
            r.shuffle(v)
    return c


@PROP.sub('structure', structure_case(), quick=250, thorough=3000, shards=2)
def structure(c, ctx):
    """Shapes, unit weights, central symmetry and exact standard Normal moments."""
    d, p = c['d'], c['p']
    s = ctx.call('SigmaPoints', make, c)
    n = 2 * d if c['rule'] == 'cubature' else p ** d
    ctx.label(c['rule'], f'd={d}', f'p={p}')
    ctx.equal(int(s.d), d, 'd'), ctx.equal(int(s.n_points), n, 'n_points')
    w, xi = ctx.arr(s.w, (n,), 'weights'), ctx.arr(s.xi, (n, d), 'points')
    t = slack(p)
    ctx.close(np.sum(w), 1., 'weights sum', tol=max(1e-13 * n, t))
    ctx.true(np.all(w > 0), 'non-positive weight')
    for x, v in zip(xi[:200], w[:200]):  # every point has its mirror image with the same weight
        dist = np.max(np.abs(xi + x), axis=1)
        j = int(np.argmin(dist))
        ctx.true(dist[j] <= 20 * t * (1 + np.max(np.abs(x))), 'points not symmetric', point=x)
        ctx.true(abs(w[j] - v) <= 20 * t * (v + 1e-3), 'weights not symmetric', point=x)
    dd = np.max(np.abs(xi[:, None] - xi[None]), axis=-1) if n <= 300 else None
    if dd is not None and n > 1:
        ctx.true(np.min(dd + 10 * np.eye(n)) > 1e-3, 'repeated points')
    # integrands with integer and logical values (counting and indicator functions)
    for vals in ((np.arange(n) * 5) % 7 - 3, np.stack([xi[:, 0] > 0, np.sum(xi, axis=1) <= 1.], axis=1)):
        got = ctx.call('expectation', s.expectation, jnp.asarray(vals))
        ctx.close(got, np.tensordot(w, vals.astype(float), axes=1), f'expectation of {vals.dtype.kind} values', tol=1e-13 * n + 1e-12)
    for k in c['n']:
        ctx.nt(sum(k) >= 2)
        e = math.prod(gauss1(v) for v in k)
        a = float(np.sum(w * np.prod(np.abs(xi) ** np.array(k), axis=1)))
        ctx.close(float(np.sum(w * np.prod(xi ** np.array(k), axis=1))), e, f'moment {k}', tol=t * 40 * (1 + sum(k)) * (a + 1e-3))
        got = ctx.scalar(ctx.call('expectation', s.expectation, jnp.prod(s.xi ** jnp.asarray(k), axis=1)), 'expectation')
        ctx.close(got, e, f'expectation of moment {k}', tol=t * 40 * (1 + sum(k)) * (a + 1e-3))


@st.composite
def poly_case(draw):
    c = draw(rule(14))
    if c['rule'] == 'cubature':
        c['d'] = min(c['d'], 5)
    d = c['d']
    deg = 3 if c['rule'] == 'cubature' else 2 * c['p'] - 1
    deg = min(deg, 21)

    def mono():
        tot = deg - min(deg, draw(st.one_of(st.integers(0, 1), st.integers(0, deg))))
        n = [0] * d
        for _ in range(tot):
            n[draw(st.integers(0, d - 1))] += 1
        return n

    shape = draw(st.sampled_from([(), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2)]))
    c.update(shape=list(shape), terms=[[mono(), draw(q(-2, 2, 8))] for _ in range(2 * max(1, math.prod(shape)))],
             m=draw(vec(q(-2, 2, 16), d)), L=draw(tril(d, off=1., lo=0.25, hi=1.5)), rot=draw(st.one_of(st.none(), st.integers(0, 99))))
    return c


def polys(c):
    """Component polynomials [(n, coefficient), ...] of the integrand."""
    k = max(1, math.prod(c['shape']))
    return [c['terms'][2 * i:2 * i + 2] for i in range(k)]


def integrand(c, xp):
    ps = polys(c)

    def f(x):
        v = [sum(a * xp.prod(x ** xp.asarray(np.array(n)), axis=-1) for n, a in p) for p in ps]
        return xp.stack(v, axis=-1).reshape(x.shape[:-1] + tuple(c['shape']))

    return f


def expected(c, m, S):
    g = o.gauss_moments_exact(m, S)
    e = [float(sum(a * g(tuple(n)) for n, a in p)) for p in polys(c)]
    return np.array(e).reshape(tuple(c['shape']))


def size(c, m, S, xi, w, root):
    chi = np.abs(m) + np.abs(xi @ root.T)
    v = [sum(abs(a) * np.prod(chi ** np.array(n), axis=1) for n, a in p) @ w for p in polys(c)]
    return np.array(v).reshape(tuple(c['shape'])) + 1


@PROP.sub('mapped', poly_case(), quick=500, thorough=8000, shards=4)
def mapped(c, ctx):
    """Any mean and any square root of the covariance; scalar, vector and matrix integrands; both expectation functions."""
    d = c['d']
    L = np.array(c['L'])
    if c['rot'] is not None:
        L = L @ np.linalg.qr(np.random.default_rng(c['rot']).normal(size=(d, d)))[0]
    m, S = np.array(c['m']), L @ L.T
    ctx.label(c['rule'], f'd={d}', f'p={c["p"]}', f'shape={tuple(c["shape"])}', 'cholesky' if c['rot'] is None else 'other square root')
    ctx.nt(max(sum(n) for n, _ in c['terms']) >= 2)
    s = ctx.call('SigmaPoints', make, c)
    chi = ctx.call('gen_sigma_points', s.gen_sigma_points, jnp.asarray(m), jnp.asarray(L))
    w, xi = np.asarray(s.w), np.asarray(s.xi)
    ctx.close(chi, m + np.array([L @ x for x in xi]), 'sigma points', tol=1e-13 * (1 + np.max(np.abs(m)) + np.max(np.abs(xi)) * np.max(np.abs(L)) * d))
    e, t = expected(c, m, S), 1e-11 * size(c, m, S, xi, w, L)
    f = integrand(c, jnp)
    ctx.close(ctx.call('expectation', s.expectation, f(chi)), e, 'expectation', tol=t)
    ctx.close(ctx.call('expectation_from_nodes', s.expectation_from_nodes, f, chi), e, 'expectation_from_nodes', tol=t)


@st.composite
def batch_case(draw):
    c = draw(poly_case())
    d = draw(st.integers(1, 3))
    T = draw(st.sampled_from([1, 2, 5]))
    p = draw(st.sampled_from([2, 11, 1, 3, 12, 4, 5, 13, 6, 8, 10, 15]))
    p = min(p, {1: 15, 2: 12, 3: 5}[d])
    deg = min(2 * p - 1, 25)

    def mono():
        n = [0] * d
        for _ in range(deg - min(deg, draw(st.one_of(st.integers(0, 1), st.integers(0, deg))))):
            n[draw(st.integers(0, d - 1))] += 1
        return n

    return dict(rule='gh', d=d, p=p, shape=c['shape'], terms=[[mono(), a] for _, a in c['terms']], ms=draw(mat(q(-2, 2, 16), T, d)),
                Ls=[draw(tril(d, off=1., lo=0.25, hi=1.5)) for _ in range(T)], force=d == 1 and draw(st.booleans()), omit=draw(st.booleans()))


@PROP.sub('batched', batch_case(), quick=200, thorough=4000, shards=3)
def batched(c, ctx):
    """gaussian_expectation over a batch equals the exact expectation for each member, flattened one-dimensional input included."""
    d, p = c['d'], c['p']
    ms, Ls = np.array(c['ms']), np.array(c['Ls'])
    T = len(ms)
    ctx.label(f'd={d}', f'p={p}', f'T={T}', f'shape={tuple(c["shape"])}', 'forced shape' if c['force'] else 'given shape')
    ctx.nt(max(sum(n) for n, _ in c['terms']) >= 2)
    kw = dict(d=d, order=p)
    if c['omit'] and d == 1:
        kw.pop('d')
    if c['omit'] and p == 10:
        kw.pop('order')
    a, b = jnp.asarray(ms), jnp.asarray(Ls)
    if c['force']:
        a, b, kw['force_shape'] = a.reshape(-1), b.reshape(-1), True
    out = ctx.call('gaussian_expectation', gaussian_expectation, a, b, integrand(c, jnp), **kw)
    x, w = np.polynomial.hermite_e.hermegauss(p)
    xi = np.stack([g.reshape(-1) for g in np.meshgrid(*[x] * d, indexing='ij')], axis=-1)
    w = np.prod([g.reshape(-1) for g in np.meshgrid(*[w / math.sqrt(2 * math.pi)] * d, indexing='ij')], axis=0)
    e = np.array([expected(c, m, L @ L.T) for m, L in zip(ms, Ls)])
    t = np.array([1e-11 * size(c, m, None, xi, w, L) for m, L in zip(ms, Ls)])
    ctx.close(out, e, 'batched expectation', tol=t)
