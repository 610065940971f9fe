from ..core import *
from .. import oracles as o, modelsg as M
import jax
import jax.numpy as jnp
from mfs.classical_filters_smoothers.gfs import kf, rts

PROP = Prop('C17', rule='non-zero measurement matrix, at least two measurements and a non-diagonal or multidimensional model',
            assumptions=['double precision (jax x64) is enabled', 'measurement noise covariances are positive definite'])
_kf, _rts = jax.jit(kf), jax.jit(rts)
DIMS = [(1, 1, 1), (2, 1, 1), (1, 1, 6), (1, 2, 3), (2, 1, 6), (2, 2, 6), (3, 1, 3), (3, 2, 6), (2, 3, 3), (4, 3, 3), (3, 3, 1), (4, 1, 9), (5, 2, 2), (2, 1, 30), (6, 4, 3)]


@st.composite
def case(draw):
    dx, dy, T = draw(st.sampled_from(DIMS))
    kind = draw(st.sampled_from(['dense', 'dense', 'dense', 'known start', 'singular noise', 'precise', 'vague', 'unobserved']))
    F = draw(mat(q(-1.25, 1.25, 32), dx, dx))
    H = draw(mat(q(-2, 2, 32), dy, dx))
    if kind == 'unobserved':
        H = [[0.] + r[1:] for r in H]
    return dict(kind=kind, unit=draw(st.sampled_from(M.UNITS)), F=F, H=H, Q=draw(tril(dx)), R=draw(tril(dy)), P0=draw(tril(dx)), m0=draw(vec(q(-3, 3, 32), dx)),
                ys=draw(mat(q(-4, 4, 32), T, dy)))


def matrices(c):
    F, H = np.array(c['F']), np.array(c['H'])
    Q, R, P0 = spd(c['Q']), spd(c['R']), spd(c['P0'])
    k = c['kind']
    if k == 'known start':
        P0 = np.zeros_like(P0)
    if k == 'singular noise':
        L = np.array(c['Q'])
        L = L[:, :1]
        Q = L @ L.T
    if k == 'precise':
        R = R * 2. ** -16
    if k == 'vague':
        P0 = P0 * 2. ** 12
    return F, Q, H, R, P0


@PROP.sub('conditioning', case(), quick=700, thorough=12000, shards=6)
def check(c, ctx):
    """Filter and smoother equal one-shot conditioning of the joint Gaussian."""
    F, Q, H, R, P0 = matrices(c)
    m0, ys = np.array(c['m0']), np.array(c['ys'])
    dx, dy, T = len(m0), H.shape[0], len(ys)
    ctx.label(f'dx={dx}', f'dy={dy}', f'T={T}', c['kind'])
    ctx.nt(np.any(H) and T >= 2 and (dx > 1 or dy > 1))
    mf, vf, nll, ms, vs = o.batch_gaussian(F, Q, H, R, m0, P0, ys)
    # prior sizes: the scale on which double precision can resolve the answers
    P, big = P0, np.linalg.norm(P0, 2)
    for _ in range(T):
        P = F @ P @ F.T + Q
        big = max(big, np.linalg.norm(P, 2))
    kap = 1 + big * np.linalg.norm(H, 2) ** 2 * np.linalg.norm(np.linalg.inv(R), 2)
    tol = 1e-13 * kap + 1e-11
    res = 1 + np.max(np.abs(ys)) + np.linalg.norm(H, 2) * (np.max(np.abs(m0)) + math.sqrt(big))
    J = jnp.asarray
    u = 2. ** c['unit']
    ctx.label(f'unit 2^{c["unit"]}')
    out = ctx.call('kf', _kf, J(F), J(Q * u ** 2), J(H), J(R * u ** 2), J(m0 * u), J(P0 * u ** 2), J(ys * u))
    ctx.equal(len(out), 3, 'number of outputs of kf')
    raw, out = out, M.unscale(out, u, dy)
    sm = 1 + np.max(np.abs(mf))
    ctx.close(out[0], mf, 'filter means', tol=tol * (sm + math.sqrt(big) * res))
    ctx.close(out[1], vf, 'filter covariances', tol=tol * (1 + big))
    ctx.close(out[2], nll, 'negative log likelihoods', tol=tol * kap ** 0.5 * res ** 2 * T + 1e-11 * np.abs(nll))
    V = np.asarray(out[1])
    ctx.close(V, np.transpose(V, (0, 2, 1)), 'filter covariances symmetric', tol=tol * (1 + big))
    ctx.true(np.min(np.linalg.eigvalsh((V + np.transpose(V, (0, 2, 1))) / 2)) >= -tol * (1 + big), 'filter covariance not positive semi-definite')

    # smoother, where predictive covariances are invertible to working precision
    worst = 1.
    for v in vf[:-1]:
        Pp = F @ v @ F.T + Q
        worst = max(worst, np.linalg.cond(Pp))
    if worst > 1e6:
        ctx.label('smoother skipped: singular prediction')
        return
    so = ctx.call('rts', _rts, J(F), J(Q * u ** 2), raw[0], raw[1])
    ctx.equal(len(so), 2, 'number of outputs of rts')
    so = M.unscale(so, u, dy)
    t2 = tol * worst * 10
    ctx.close(so[0], ms, 'smoother means', tol=t2 * (sm + math.sqrt(big) * res))
    ctx.close(so[1], vs, 'smoother covariances', tol=t2 * (1 + big))
    S = np.asarray(so[1])
    ctx.true(np.array_equal(np.asarray(so[0])[-1], np.asarray(out[0])[-1]) and np.array_equal(S[-1], V[-1]), 'last smoothed state is not the last filtered one')
    D = V - S
    ctx.true(np.min(np.linalg.eigvalsh((D + np.transpose(D, (0, 2, 1))) / 2)) >= -t2 * (1 + big), 'smoothing increased a covariance')


@PROP.sub('vector_as_sequence', case(), quick=250, thorough=3000, shards=3)
def sequential(c, ctx):
    """With uncorrelated measurement noises, a vector measurement is the same as its components processed one after another."""
    F, Q, H, R, P0 = matrices(c)
    R = np.diag(np.diag(R))
    m0, ys = np.array(c['m0']), np.array(c['ys'])[:3]
    dx, dy, T = len(m0), H.shape[0], len(ys)
    ctx.label(f'dx={dx}', f'dy={dy}', c['kind'])
    ctx.nt(dy > 1 and np.any(H))
    J = jnp.asarray
    mf, vf, nll = (np.asarray(v) for v in ctx.call('kf', _kf, J(F), J(Q), J(H), J(R), J(m0), J(P0), J(ys)))
    m, P, n = m0, P0, 0.
    kap = 1 + max(np.linalg.norm(v, 2) for v in [P0, Q, F @ P0 @ F.T + Q]) * 20 * np.linalg.norm(H, 2) ** 2 / np.min(np.diag(R))
    Z, I = np.zeros((dx, dx)), np.eye(dx)
    for k in range(T):
        for j in range(dy):
            a, b, e = ctx.call('kf', _kf, J(F if j == 0 else I), J(Q if j == 0 else Z), J(H[j:j + 1]), J(R[j:j + 1, j:j + 1]), J(m), J(P), J(ys[k:k + 1, j:j + 1]))
            m, P, n = np.asarray(a)[0], np.asarray(b)[0], n + float(np.asarray(e)[0])
        tol = 1e-12 * kap + 1e-10
        ctx.close(mf[k], m, 'means', tol=tol * (1 + np.max(np.abs(m)) + np.max(np.abs(ys)) + np.linalg.norm(m0)) * 5)
        ctx.close(vf[k], P, 'covariances', tol=tol * (1 + np.linalg.norm(P0, 2) + np.linalg.norm(Q, 2)) * 5)
        ctx.close(nll[k], n, 'negative log likelihood', tol=tol * (1 + abs(n)) * 10)
