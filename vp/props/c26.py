from ..core import *
import jax
import jax.numpy as jnp
import scipy.linalg as sl
from mfs.utils import discretise_lti_sde

PROP = Prop('C26', rule='non-zero drift, non-zero dispersion and a positive step',
            assumptions=['double precision (jax x64) is enabled'])
_j = jax.jit(discretise_lti_sde)
G, W = np.polynomial.legendre.leggauss(30)


@st.composite
def case(draw):
    d = draw(st.integers(1, 5))
    w = draw(st.integers(1, 5))
    kind = draw(st.sampled_from(['dense', 'dense', 'nilpotent', 'rotation', 'zeroB', 'zeroA']))
    A = draw(mat(q(-2, 2, 16), d, d))
    if kind == 'nilpotent':
        A = [[A[i][j] if j > i else 0. for j in range(d)] for i in range(d)]
    if kind == 'rotation':
        A = [[A[i][j] if j > i else (-A[j][i] if j < i else 0.) for j in range(d)] for i in range(d)]
    if kind == 'zeroA':
        A = [[0.] * d for _ in range(d)]
    B = [[0.] * w for _ in range(d)] if kind == 'zeroB' else draw(mat(q(-2, 2, 16), d, w))
    return dict(kind=kind, A=A, B=B, dt=0. if draw(st.integers(0, 7)) == 0 else draw(qpos(0.01, 1, 64)), dt2=draw(qpos(0.01, 1, 64)),
                T=draw(tril(d)), jit=draw(st.booleans()), unit=draw(st.sampled_from([0, 0, 0, -12, -24])), time=draw(st.sampled_from([0, 0, 0, -8, 10, 20])))


def exact(A, B, dt):
    F = sl.expm(A * dt)
    n = max(1, int(math.ceil(np.linalg.norm(A, 1) * dt / 2)))
    h = dt / n
    Q = np.zeros_like(A)
    for g, w in zip(G, W):
        E = sl.expm(A * (h * (g + 1) / 2)) @ B
        Q = Q + w * h / 2 * E @ E.T
    S, Fh, tot = Q, sl.expm(A * h), np.zeros_like(A)
    for _ in range(n):
        tot = Fh @ tot @ Fh.T + S
    return F, tot


@PROP.sub('exact', case(), quick=700, shards=6)
def check(c, ctx):
    A, B, dt, dt2 = np.array(c['A']), np.array(c['B']), c['dt'], c['dt2']
    d = A.shape[0]
    ctx.label(f'd={d}', f'w={B.shape[1]}', c['kind'], f'unit 2^{c["unit"]}', f'time 2^{c["time"]}', 'dt=0' if dt == 0 else 'dt>0')
    ctx.nt(np.any(A) and np.any(B) and dt > 0)

    def run(A_, B_, t):
        # states in units of 2^-unit, time in units of 2^time
        u, v = 2. ** c['unit'], 2. ** c['time']
        out = ctx.call('discretise_lti_sde', _j if c['jit'] else discretise_lti_sde, jnp.asarray(A_ * v), jnp.asarray(B_ * (u * math.sqrt(v))), t / v)
        return ctx.arr(out[0], A_.shape, 'F'), ctx.arr(out[1], A_.shape, 'cov') / u ** 2

    def scale(A_, B_, t):
        g = math.exp(min(2 * np.linalg.norm(A_, 2) * t, 60))
        return g * (1 + np.linalg.norm(B_, 2) ** 2 * t), g

    F, Q = run(A, B, dt)
    eF, eQ = exact(A, B, dt)
    s, g = scale(A, B, dt)
    ctx.close(F, eF, 'transition matrix', tol=1e-13 * g * 10)
    ctx.close(Q, eQ, 'covariance', tol=1e-12 * s * g)
    ctx.close(Q, Q.T, 'covariance symmetric', tol=1e-12 * s * g)
    ctx.true(np.min(np.linalg.eigvalsh((Q + Q.T) / 2)) >= -1e-12 * s * g, 'covariance positive semi-definite')
    # composition of two steps
    F2, Q2 = run(A, B, dt2)
    F3, Q3 = run(A, B, dt + dt2)
    s3, g3 = scale(A, B, dt + dt2)
    ctx.close(F2 @ F, F3, 'two steps compose (transition)', tol=1e-12 * g3)
    ctx.close(F2 @ Q @ F2.T + Q2, Q3, 'two steps compose (covariance)', tol=1e-11 * s3 * g3)
    if c['kind'] == 'zeroB' or dt == 0:
        ctx.close(Q, np.zeros((d, d)), 'no noise, no covariance', tol=1e-13 * g)
    # change of coordinates
    T = np.array(c['T'])
    Ti = np.linalg.inv(T)
    k = np.linalg.cond(T)
    AT, BT = T @ A @ Ti, T @ B
    Ft, Qt = run(AT, BT, dt)
    st_, gt = scale(AT, BT, dt)
    ctx.close(Ft, T @ F @ Ti, 'equivariance (transition)', tol=1e-12 * (gt + k * g) * k)
    ctx.close(Qt, T @ Q @ T.T, 'equivariance (covariance)', tol=1e-11 * (st_ * gt + k * np.linalg.norm(T, 2) ** 2 * s * g) * k)


@st.composite
def stable(draw):
    d = draw(st.integers(1, 4))
    return dict(d=d, M=draw(mat(q(-1, 1, 16), d, d)), L=draw(tril(d, lo=0.5)), B=draw(mat(q(-2, 2, 16), d, d)))


@PROP.sub('stationary', stable(), quick=120, shards=2)
def stationary(c, ctx):
    """-(S + K) with S positive definite and K skew is stable; long steps reach the Lyapunov solution."""
    M, L, B = np.array(c['M']), np.array(c['L']), np.array(c['B'])
    A = -(L @ L.T + (M - M.T) / 2)
    ctx.nt(np.any(B))
    ev = -np.max(np.linalg.eigvals(A).real)
    P = sl.solve_continuous_lyapunov(A, -B @ B.T)
    t = min(4 / ev, 6 / np.linalg.norm(A, 2))
    out = ctx.call('discretise_lti_sde', discretise_lti_sde, jnp.asarray(A), jnp.asarray(B), t)
    F, Q = np.asarray(out[0]), np.asarray(out[1])
    g = math.exp(4 * np.linalg.norm(A, 2) * t)
    ctx.close(Q, P - F @ P @ F.T, 'stationary covariance minus its remainder', tol=1e-13 * g * (1 + np.max(np.abs(P)) + np.linalg.norm(B) ** 2))
    X = np.zeros_like(Q)
    for _ in range(400):
        X = F @ X @ F.T + Q
    if np.max(np.abs(np.linalg.eigvals(F))) ** 800 < 1e-10:
        ctx.label('converged')
        ctx.close(X, P, 'stationary covariance', tol=1e-8 * (1 + np.max(np.abs(P))) * max(1, g * 1e-4))


@st.composite
def stiff(draw):
    d = draw(st.integers(1, 4))
    return dict(d=d, M=draw(mat(q(-1, 1, 16), d, d)), B=draw(mat(q(-2, 2, 16), d, d)), a=draw(st.one_of(q(2, 40, 4), q(40, 250, 2))), dt=draw(st.sampled_from([1., 0.5, 2. ** -6, 2. ** -12, 4., 64.])))


@PROP.sub('stiff', stiff(), quick=160, shards=2)
def stiff_check(c, ctx):
    """A = -(a I) + M in units of 1 / dt: fast decay over one step, the covariance is all but the stationary one."""
    dt, d = c['dt'], c['d']
    A = (np.array(c['M']) - c['a'] * np.eye(d)) / dt
    B = np.array(c['B']) / math.sqrt(dt)
    ctx.nt(np.any(B))
    ctx.label(f'd={d}', f"decay {2 ** int(math.log2(c['a']))}+")
    out = ctx.call('discretise_lti_sde', discretise_lti_sde, jnp.asarray(A), jnp.asarray(B), dt)
    F, Q = ctx.arr(out[0], (d, d), 'F'), ctx.arr(out[1], (d, d), 'cov')
    P = sl.solve_continuous_lyapunov(A, -B @ B.T)
    E = sl.expm(A * dt)
    g = math.exp(2 * np.linalg.norm(np.array(c['M']), 2))
    ctx.close(F, E, 'transition matrix', tol=1e-6 * g * math.exp(-c['a']) + 1e-300)  # the matrix exponential of the library is good to about 1e-8 there
    ctx.close(Q, P - E @ P @ E.T, 'covariance', tol=1e-6 * g * np.linalg.norm(P) + 1e-300)
