from ..core import *
from .. import oracles as o
import jax
import jax.numpy as jnp
from functools import partial
from mfs.utils import posterior_cramer_rao

PROP = Prop('C29', rule='at least two times and (non-linear model) at least two trajectories',
            assumptions=['double precision (jax x64) is enabled'])


@jax.jit
def run(traj, ys, j0, A, B, C, w):
    """log p(x_t | x_s) = -x_t'A x_t / 2 + x_t' B sin(x_s) - x_s' C x_s / 2 - w[0] sum x_t^4 / 12 (unnormalised: only the
    Hessians matter); log p(y | x) = -w[1] (1 + y_0^2) sum_i x_i^2 / 2 - w[2] x_0^2 x_{-1}^2 / 2 + y_{-1} x_0."""
    lt = lambda xt, xs: -0.5 * xt @ A @ xt + xt @ B @ jnp.sin(xs) - 0.5 * xs @ C @ xs - w[0] * jnp.sum(xt ** 4) / 12
    ll = lambda y, x: -0.5 * w[1] * (1 + y[0] ** 2) * jnp.sum(x ** 2) - 0.5 * w[2] * x[0] ** 2 * x[-1] ** 2 + y[-1] * x[0]
    return posterior_cramer_rao(traj, ys, j0, lt, ll)


@st.composite
def case(draw):
    d, dy, T, N = draw(st.one_of(st.tuples(st.integers(1, 3), st.integers(1, 2), st.sampled_from([1, 2, 4]), st.sampled_from([1, 2, 5])), st.sampled_from([(5, 3, 2, 40), (2, 1, 15, 3), (1, 2, 40, 2)])))
    return dict(d=d, dy=dy, T=T, N=N, A=draw(tril(d, lo=1.)), C=draw(tril(d, lo=1.)), B=draw(mat(q(-1, 1, 16), d, d)), J=draw(tril(d, lo=0.5)),
                w=[draw(q(0, 1, 16)), draw(q(0, 1, 16)), draw(q(0, 0.25, 16))], key=draw(st.integers(0, 10 ** 6)), size=draw(qpos(0.25, 1.5, 16)))


@PROP.sub('recursion', case(), quick=400, shards=4)
def recursion(c, ctx):
    d, dy, T, N = c['d'], c['dy'], c['T'], c['N']
    rng = np.random.default_rng(c['key'])
    traj = c['size'] * rng.normal(size=(T + 1, N, d))
    ys = rng.normal(size=(T, N, dy))
    A, C, B, J = spd(c['A']) + np.eye(d), spd(c['C']) + 3 * np.eye(d), np.array(c['B']), spd(c['J'])
    w = c['w']
    ctx.label(f'd={d}', f'dy={dy}', f'T={T}', f'N={N}')
    ctx.nt(T >= 2 and N >= 2)
    ex, j = [], J
    for t in range(T):
        xs, xt, y = traj[t], traj[t + 1], ys[t]
        htt = np.mean([-A - w[0] * np.diag(v ** 2) for v in xt], axis=0)
        hl = []
        for v, yy in zip(xt, y):
            h = -w[1] * (1 + yy[0] ** 2) * np.eye(d)
            if d == 1:
                h[0, 0] -= w[2] * 6 * v[0] ** 2
            else:
                h[0, 0] -= w[2] * v[-1] ** 2
                h[-1, -1] -= w[2] * v[0] ** 2
                h[0, -1] -= 2 * w[2] * v[0] * v[-1]
                h[-1, 0] -= 2 * w[2] * v[0] * v[-1]
            hl.append(h)
        hl = np.mean(hl, axis=0)
        hst = np.mean([np.diag(np.cos(u)) @ B.T for u in xs], axis=0)  # d^2 / dx_s dx_t
        hss = np.mean([-C - np.diag((v @ B) * np.sin(u)) for u, v in zip(xs, xt)], axis=0)
        D11, D12, D22 = -hss, -hst, -(htt + hl)
        if np.linalg.cond(j + D11) > 1e6:
            ctx.inconclusive('ill-conditioned')
        j = D22 - D12.T @ np.linalg.inv(j + D11) @ D12
        ex.append(j)
    ex = np.array(ex)
    got = ctx.call('posterior_cramer_rao', run, jnp.asarray(traj), jnp.asarray(ys), jnp.asarray(J), jnp.asarray(A), jnp.asarray(B), jnp.asarray(C), jnp.asarray(w))
    size = 1 + np.max(np.abs(ex))
    ctx.close(got, ex, 'information recursion', tol=1e-9 * size)
    got = np.asarray(got)
    ctx.close(got, np.swapaxes(got, 1, 2), 'symmetric', tol=1e-10 * size)
    # the order of the trajectories does not matter
    p = rng.permutation(N)
    g2 = ctx.call('posterior_cramer_rao', run, jnp.asarray(traj[:, p]), jnp.asarray(ys[:, p]), jnp.asarray(J), jnp.asarray(A), jnp.asarray(B), jnp.asarray(C), jnp.asarray(w))
    ctx.close(g2, got, 'order of trajectories', tol=1e-10 * size)
    # causal in time
    if T > 1:
        g3 = ctx.call('posterior_cramer_rao', run, jnp.asarray(traj[1:]), jnp.asarray(ys[1:]), jnp.asarray(got[0]), jnp.asarray(A), jnp.asarray(B), jnp.asarray(C), jnp.asarray(w))
        ctx.close(g3, got[1:], 'restart from the first matrix', tol=1e-10 * size)


@st.composite
def lg(draw):
    d, dy, T = draw(st.integers(1, 3)), draw(st.integers(1, 2)), draw(st.sampled_from([1, 3, 6]))
    return dict(d=d, dy=dy, T=T, F=draw(mat(q(-1, 1, 16), d, d)), Q=draw(tril(d, lo=0.5)), H=draw(mat(q(-1.5, 1.5, 16), dy, d)), R=draw(tril(dy, lo=0.5)),
                P=draw(tril(d, lo=0.5)), key=draw(st.integers(0, 10 ** 6)), N=draw(st.sampled_from([1, 3])))


@jax.jit
def run_lg(traj, ys, j0, F, Qi, H, Ri):
    lt = lambda xt, xs: -0.5 * (xt - F @ xs) @ Qi @ (xt - F @ xs)
    ll = lambda y, x: -0.5 * (y - H @ x) @ Ri @ (y - H @ x)
    return posterior_cramer_rao(traj, ys, j0, lt, ll)


@PROP.sub('linear_gaussian', lg(), quick=300, shards=3)
def linear(c, ctx):
    F, Q, H, R, P = np.array(c['F']), spd(c['Q']), np.array(c['H']), spd(c['R']), spd(c['P'])
    rng = np.random.default_rng(c['key'])
    traj, ys = rng.normal(size=(c['T'] + 1, c['N'], c['d'])), rng.normal(size=(c['T'], c['N'], c['dy']))
    _, Ps, _, _, _ = o.kalman(F, Q, H, R, np.zeros(c['d']), P, np.zeros((c['T'], c['dy'])))
    ex = np.linalg.inv(Ps)
    k = max(np.linalg.cond(Q), np.linalg.cond(R), np.linalg.cond(P), *(np.linalg.cond(p) for p in Ps))
    if k > 1e7:
        ctx.inconclusive('ill-conditioned')
    ctx.nt(c['T'] >= 2)
    ctx.label(f'd={c["d"]}', f'dy={c["dy"]}')
    got = ctx.call('posterior_cramer_rao', run_lg, jnp.asarray(traj), jnp.asarray(ys), jnp.asarray(np.linalg.inv(P)), jnp.asarray(F),
                   jnp.asarray(np.linalg.inv(Q)), jnp.asarray(H), jnp.asarray(np.linalg.inv(R)))
    ctx.close(got, ex, 'inverse Kalman covariances', tol=1e-13 * k * 100 * (1 + np.max(np.abs(ex))) + 1e-9 * np.max(np.abs(ex)))
