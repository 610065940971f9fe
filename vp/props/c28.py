from ..core import *
from fractions import Fraction
import jax
import jax.numpy as jnp
from functools import partial
from mfs.utils import ldl, ldl_chol, lanczos, lanczos_ritz

PROP = Prop('C28', rule='dimension >= 2 and, for LDL, off-diagonal entries; for Lanczos, at least two iterations',
            assumptions=['double precision (jax x64) is enabled', 'Krylov spaces that are numerically rank-deficient are inconclusive'])


UNITS = [0, 0, 0, 0, -50, -24, 30]  # powers of two: the matrix is given in these units


@st.composite
def sym(draw):
    n = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(8, 12)))
    kind = draw(st.sampled_from(['spd', 'indefinite', 'hankel', 'indefinite']))
    L = draw(tril(n, lo=1., hi=1.))
    dg = [draw(qpos(0.1, 3, 16)) * (1 if kind != 'indefinite' else draw(st.sampled_from([1, -1]))) for _ in range(n)]
    return dict(n=n, kind=kind, unit=draw(st.sampled_from(UNITS)), L=L, d=dg, eps=draw(st.one_of(st.none(), qpos(1e-3, 0.5, 1024))), jit=draw(st.booleans()))


_ldl, _chol = jax.jit(ldl), jax.jit(ldl_chol)


@PROP.sub('ldl', sym(), quick=400, shards=3)
def check_ldl(c, ctx):
    n, L, d = c['n'], np.array(c['L']), np.array(c['d'])
    if c['kind'] == 'hankel':
        x = np.cumsum(np.abs(d)) - np.sum(np.abs(d)) / 2
        w = np.abs(d) / np.sum(np.abs(d))
        A = np.array([[np.sum(w * x ** (i + j)) for j in range(n)] for i in range(n)])
        try:
            R = np.linalg.cholesky(A)
        except np.linalg.LinAlgError:
            ctx.inconclusive('Hankel matrix not positive definite')
        d = np.diag(R) ** 2
        L = R / np.diag(R)
    else:
        A = (L * d) @ L.T
    k = np.linalg.cond(L) ** 2 * np.max(np.abs(d)) / np.min(np.abs(d))
    if k > 1e10:
        ctx.inconclusive('ill-conditioned')
    ctx.label(f'n={n}', c['kind'])
    ctx.nt(n >= 2 and np.any(np.tril(L, -1)))
    u = 2. ** c['unit']
    ctx.label(f'unit 2^{c["unit"]}')
    out = ctx.call('ldl', _ldl if c['jit'] else ldl, jnp.asarray(A * u))
    l, dd = ctx.arr(out[0], (n, n), 'L'), ctx.arr(out[1], (n,), 'D') / u
    ctx.true(np.allclose(np.triu(l, 1), 0, atol=0), 'L is lower triangular', L=l)
    ctx.true(np.array_equal(np.diag(l), np.ones(n)), 'L has a unit diagonal', L=l)
    ctx.close((l * dd) @ l.T, A, 'L D L^T', tol=1e-13 * n * (1 + k) ** 0.5 * np.max(np.abs(A)) + 1e-13 * n * np.max((np.abs(l) * np.abs(dd)) @ np.abs(l).T))
    ctx.close(dd, d, 'pivots', tol=1e-14 * n * k * np.max(np.abs(d)) + 1e-12)
    ctx.close(l, L, 'unit lower factor', tol=(1e-14 * n * k + 1e-12) * (1 + np.max(np.abs(L))))
    # completed Cholesky factor
    for eps in (None, c['eps']):
        R = ctx.call('ldl_chol', *((_chol if c['jit'] else ldl_chol, jnp.asarray(A * u)) if eps is None else (ldl_chol, jnp.asarray(A * u), eps * math.sqrt(u))))
        R = ctx.arr(R, (n, n), 'completed factor') / math.sqrt(u)
        ctx.true(np.allclose(np.triu(R, 1), 0, atol=0), 'completed factor is lower triangular', R=R)
        e = eps if eps is not None else 1e-8 * np.linalg.norm(A) * math.sqrt(u)
        s = np.where(d > 0, np.sqrt(np.abs(d)), e)
        dg = np.diag(R)
        ctx.true(np.all(dg > 0), 'completed factor is non-singular', diag=dg)
        ctx.close(dg, s, 'diagonal of the completed factor', tol=(1e-13 * n * k + 1e-12) * (s + np.where(d > 0, np.max(np.abs(d)) ** 0.5, 0)))
        ctx.close(R, L * dg, 'columns of the completed factor', tol=(1e-13 * n * k + 1e-12) * (1 + np.max(np.abs(L))) * np.max(dg))
        if np.all(d > 0):
            ctx.label('positive definite')
            ctx.close(R, np.linalg.cholesky(A), 'Cholesky factor', tol=(1e-13 * n * k + 1e-12) * np.max(np.abs(A)) ** 0.5)


@st.composite
def dyadic(draw):
    """Matrices whose exact factorisation stays within double precision at every step: pivots of any size, judged to full precision."""
    n = draw(st.integers(1, 4))
    return dict(n=n, L=draw(mat(st.sampled_from([0., 1., -1., 0.5, -0.5, 2.]), n, n)), e=draw(vec(st.integers(-20, 2), n)), jit=draw(st.booleans()),
                neg=draw(st.one_of(st.none(), st.none(), vec(st.booleans(), n))), unit=draw(st.sampled_from([0, 0, -40, 20])))


@PROP.sub('graded', dyadic(), quick=200, shards=1)
def graded(c, ctx):
    n = c['n']
    L = np.tril(np.array(c['L']), -1) + np.eye(n)
    d = 4. ** np.array(c['e']) * np.where(c['neg'], -1., 1.) if c['neg'] else 4. ** np.array(c['e'])
    fl = [[Fraction(float(v)) for v in r] for r in L]
    A = [[sum(fl[i][k] * Fraction(float(d[k])) * fl[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    F = np.array([[float(v) for v in r] for r in A])
    if any(Fraction(float(F[i, j])) != A[i][j] for i in range(n) for j in range(n)):
        ctx.inconclusive('not representable')
    u = 2. ** c['unit']
    ctx.label(f'n={n}', f'unit 2^{c["unit"]}', 'negative pivots' if np.any(d < 0) else 'positive definite')
    ctx.nt(n >= 2 and np.ptp(c['e']) >= 8)
    l, dd = ctx.call('ldl', _ldl if c['jit'] else ldl, jnp.asarray(F * u))
    l, dd = ctx.arr(l, (n, n), 'L'), ctx.arr(dd, (n,), 'D') / u
    # every intermediate quantity is a multiple of the smallest power of two involved; what exceeds 53 bits is not judged
    if np.max(np.abs(F)) / np.min(np.abs(d)) > 2. ** 44:
        ctx.inconclusive('more than double precision')
    rel = 16 * 2. ** -52 * np.max(np.abs(F)) / np.abs(d)  # what another order of operations may lose
    ctx.close(dd, d, 'pivots of a graded matrix', tol=rel * np.abs(d))
    ctx.close(l, L, 'factor of a graded matrix', tol=np.tril(rel * (1 + np.max(np.abs(L))), -1))
    R = ctx.arr(ctx.call('ldl_chol', _chol if c['jit'] else ldl_chol, jnp.asarray(F * u)), (n, n), 'completed factor') / math.sqrt(u)
    root = np.where(d > 0, np.sqrt(np.abs(d)), 1e-8 * np.linalg.norm(F) * math.sqrt(u))
    ctx.close(R, L * root, 'completed factor of a graded matrix', tol=np.tril((rel + 1e-13) * (1 + np.max(np.abs(L))) * root))


@st.composite
def lan(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 9)))
    return dict(n=n, unit=draw(st.sampled_from(UNITS)), m=draw(st.integers(1, n)), A=draw(mat(q(-2, 2, 16), n, n)), ev=draw(separated(n, 0.4, 1.5)), v=draw(vec(q(-2, 2, 16), n)),
                norm=draw(qpos(0.2, 5, 16)), sort=draw(st.booleans()))


_lan = jax.jit(lanczos, static_argnums=(2,))
_rit = jax.jit(lanczos_ritz, static_argnums=(2, 3, 4))


@PROP.sub('lanczos', lan(), quick=450, shards=3)
def check_lanczos(c, ctx):
    n, m = c['n'], c['m']
    Q, _ = np.linalg.qr(np.array(c['A']) + 3 * np.eye(n))
    A = (Q * np.array(c['ev'])) @ Q.T
    A = (A + A.T) / 2
    v = np.array(c['v'])
    if np.linalg.norm(v) < 0.1:
        v = np.ones(n)
    v = v / np.linalg.norm(v)
    # reference Krylov basis by QR
    K = [v]
    for _ in range(m - 1):
        w = A @ K[-1]
        for _ in range(2):
            for u in K:
                w = w - (u @ w) * u
        nb = np.linalg.norm(w)
        if nb < 0.02:
            ctx.inconclusive('Krylov space exhausted')
        K.append(w / nb)
    V0 = np.array(K).T
    T0 = V0.T @ A @ V0
    b = np.diag(T0, -1)
    amp = float(np.prod(np.maximum(1, np.linalg.norm(A, 2) / np.abs(b)))) ** 2 if m > 1 else 1.
    tol = 1e-13 * amp * 10
    if tol > 1e-5:
        ctx.inconclusive('ill-conditioned')
    ctx.label(f'n={n}', f'm={m}', 'full' if m == n else 'partial')
    ctx.nt(m >= 2)
    na = 1 + np.linalg.norm(A, 2)
    un = 2. ** c['unit']
    ctx.label(f'unit 2^{c["unit"]}')
    out = ctx.call('lanczos', _lan, jnp.asarray(A * un), jnp.asarray(v), m)
    V, al, be = ctx.arr(out[0], (n, m), 'V'), ctx.arr(out[1], (m,), 'diagonal') / un, ctx.arr(out[2], (m - 1,), 'off-diagonal') / un
    T = np.diag(al) + np.diag(be, 1) + np.diag(be, -1) if m > 1 else np.diag(al)
    ctx.close(V[:, 0], v, 'first basis vector is the start vector', tol=1e-14)
    ctx.close(V.T @ V, np.eye(m), 'orthonormal basis', tol=tol)
    ctx.close(V.T @ A @ V, T, 'projection of the matrix', tol=tol * na)
    ctx.close(V, V0, 'Krylov basis', tol=tol)
    ctx.true(np.all(be >= 0), 'off-diagonal non-negative', be=be)
    R = A @ V - V @ T
    if m > 1:
        ctx.close(R[:, :-1], np.zeros((n, m - 1)), 'Lanczos relation', tol=tol * na)
    if m == n:
        ctx.close(V @ T @ V.T, A, 'full factorisation', tol=tol * na)
    # Ritz
    s = c['norm']
    u, th = ctx.call('lanczos_ritz', _rit, jnp.asarray(A * un), jnp.asarray(s * v), m, False, c['sort'])
    u, th = ctx.arr(u, (n, m), 'Ritz vectors'), ctx.arr(th, (m,), 'Ritz values') / un
    ctx.close(np.sort(th), np.linalg.eigvalsh(T0), 'Ritz values', tol=tol * na)
    if c['sort']:
        ctx.true(np.all(np.diff(th) >= 0), 'Ritz values ascend', values=th)
    if m == n:
        ctx.close(np.sort(th), np.array(c['ev']), 'spectrum', tol=tol * na * 10)
        ctx.close(A @ u, u * th, 'eigenvector relation', tol=tol * na * s * 10)
    x = s * v
    for k in range(m):  # f(A) v0 = sum_j f(theta_j) u_j for polynomials of degree < m
        ctx.close(u @ th ** k, x, f'action of A^{k} on the start vector', tol=10 * tol * s * na ** (k + 1))
        x = A @ x
