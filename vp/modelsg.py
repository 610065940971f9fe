"""Models and reference recursions for the Gaussian (Kalman-type) filters and smoothers: for JAX and for numpy."""
import math
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from .core import q, qpos, vec, mat, tril, spd

# ------------------------------------------------------------------------------------------------ discrete nonlinear models
@st.composite
def model(draw, dx, dy, affine=None, big=False):
    aff = draw(st.integers(0, 3)) == 0 if affine is None else affine
    z = (lambda n, m: [[0.] * m for _ in range(n)])
    return dict(dx=dx, dy=dy, affine=aff, A=draw(mat(q(-1, 1, 16), dx, dx)), b=draw(vec(q(-1, 1, 16), dx)),
                C=z(dx, dx) if aff else draw(mat(q(-1, 1, 16), dx, dx)), V=draw(mat(q(-1, 1, 16), dx, dx)),
                SL=draw(tril(dx, off=0.75, lo=0.25, hi=1.5)), s1=0. if aff else draw(q(0, 1, 8)),
                H=draw(mat(q(-1.5, 1.5, 16), dy, dx)), h0=draw(vec(q(-1, 1, 16), dy)),
                K=z(dy, dx) if aff else draw(mat(q(-1, 1, 16), dy, dx)),
                RL=draw(tril(dy, off=0.75, lo=0.25, hi=1.5)), r1=0. if aff else draw(q(0, 1, 8)))


KEYS = ['A', 'b', 'C', 'V', 'SL', 's1', 'H', 'h0', 'K', 'RL', 'r1']


def params(m, xp=np):
    return {k: xp.asarray(np.array(m[k], dtype=float)) for k in KEYS}


def state(P, x, dt, xp):
    """Conditional mean and covariance over a step."""
    m = x + dt * (P['b'] + P['A'] @ x + P['C'] @ xp.sin(P['V'] @ x))
    g = xp.sin(x) + 0.5
    return m, dt * (P['SL'] @ P['SL'].T + P['s1'] * xp.outer(g, g))


def state_jac(P, x, dt):
    return np.eye(len(x)) + dt * (P['A'] + P['C'] @ (np.cos(P['V'] @ x)[:, None] * P['V']))


def drift(P, x, xp):
    return P['b'] + P['A'] @ x + P['C'] @ xp.sin(P['V'] @ x)


def drift_jac(P, x):
    return P['A'] + P['C'] @ (np.cos(P['V'] @ x)[:, None] * P['V'])


def meas(P, x, xp):
    u = xp.cos(x) * 0.5 + x ** 2 * 0.125
    dy = P['H'].shape[0]
    g = xp.cos(P['H'] @ x) + 0.25
    return P['h0'] + P['H'] @ x + P['K'] @ u, P['RL'] @ P['RL'].T + P['r1'] * xp.outer(g, g)


def meas_jac(P, x):
    du = -np.sin(x) * 0.5 + x * 0.25
    return P['H'] + P['K'] * du[None, :]


# ------------------------------------------------------------------------------------------------ units
UNITS = [0, 0, 0, 0, -20, -12, 10, 20]   # powers of two: states and measurements are measured in units of 2^-k


def unscale(out, u, dy):
    """Outputs (means, covariances and, for filters, cumulative negative log likelihoods) of a model whose states and
    measurements were both multiplied by u, brought back to unit scale."""
    r = [np.asarray(out[0]) / u, np.asarray(out[1]) / u ** 2]
    if len(out) > 2:
        n = np.asarray(out[2])
        r.append(n - dy * math.log(u) * np.arange(1, len(n) + 1))
    return tuple(r)


# ------------------------------------------------------------------------------------------------ reference recursions
def nll_inc(r, S):
    return 0.5 * (r @ np.linalg.solve(S, r) + np.linalg.slogdet(2 * np.pi * S)[1])


def lin_update(m, P, H, r, R):
    S = H @ P @ H.T + R
    K = np.linalg.solve(S, H @ P).T
    return m + K @ r, P - K @ S @ K.T, nll_inc(r, S)


def ekf_update(P_, m, P, y):
    h, R = meas(P_, m, np)
    return lin_update(m, P, meas_jac(P_, m), y - h, R)


def sgp_update(P_, w, xi, m, P, y):
    chi = m + xi @ np.linalg.cholesky(P).T
    hs, Rs = zip(*[meas(P_, x, np) for x in chi])
    hs, Rs = np.array(hs), np.array(Rs)
    h = w @ hs
    S = np.einsum('i,ij,ik->jk', w, hs - h, hs - h) + np.einsum('i,ijk->jk', w, Rs)
    C = np.einsum('i,ij,ik->jk', w, chi - m, hs - h)
    K = np.linalg.solve(S, C.T).T
    return m + K @ (y - h), P - K @ S @ K.T, nll_inc(y - h, S)


def ref_filter(kind, P_, m, P, dt, ys, w=None, xi=None, predict=None):
    ms, Ps, ns, n = [], [], [], 0.
    for y in ys:
        m, P = predict(m, P)[:2]
        m, P, i = ekf_update(P_, m, P, y) if kind == 'ekf' else sgp_update(P_, w, xi, m, P, y)
        n = n + i
        ms.append(m), Ps.append(P), ns.append(n)
    return np.array(ms), np.array(Ps), np.array(ns)


def ekf_predict(P_, dt):
    def f(m, P):
        mp, S = state(P_, m, dt, np)
        F = state_jac(P_, m, dt)
        return mp, F @ P @ F.T + S, P @ F.T

    return f


def sgp_predict(P_, dt, w, xi):
    def f(m, P):
        chi = m + xi @ np.linalg.cholesky(P).T
        fs, Ss = zip(*[state(P_, x, dt, np) for x in chi])
        fs, Ss = np.array(fs), np.array(Ss)
        mp = w @ fs
        return mp, np.einsum('i,ij,ik->jk', w, fs - mp, fs - mp) + np.einsum('i,ijk->jk', w, Ss), \
            np.einsum('i,ij,ik->jk', w, chi - m, fs - mp)

    return f


def ref_smoother(predict, mfs, vfs):
    ms, vs = [mfs[-1]], [vfs[-1]]
    for m, P in zip(mfs[-2::-1], vfs[-2::-1]):
        mp, Pp, D = predict(m, P)
        G = np.linalg.solve(Pp, D.T).T
        ms.append(m + G @ (ms[-1] - mp))
        vs.append(P + G @ (vs[-1] - Pp) @ G.T)
    return np.array(ms[::-1]), np.array(vs[::-1])


# ------------------------------------------------------------------------------------------------ sigma points
RULES = ['cubature', 'gh2', 'gh3', 'simplex', 'rotated']


def sigma_rule(name, d, seed=0):
    """Reference weights and points (for rules the library builds itself, from their definition)."""
    if name == 'cubature':
        return np.ones(2 * d) / (2 * d), math.sqrt(d) * np.concatenate([np.eye(d), -np.eye(d)])
    if name.startswith('gh'):
        x, w = np.polynomial.hermite_e.hermegauss(int(name[2:]))
        w = w / math.sqrt(2 * math.pi)
        g = np.meshgrid(*[x] * d, indexing='ij')
        gw = np.meshgrid(*[w] * d, indexing='ij')
        return np.prod([v.reshape(-1) for v in gw], axis=0), np.stack([v.reshape(-1) for v in g], axis=-1)
    rng = np.random.default_rng(seed)
    R = np.linalg.qr(rng.normal(size=(d, d)))[0]
    if name == 'rotated':
        w, xi = sigma_rule('cubature', d)
        return w, xi @ R.T
    # regular simplex: d + 1 points with zero mean and identity covariance, rotated
    U = np.linalg.qr(np.concatenate([np.ones((d + 1, 1)), rng.normal(size=(d + 1, d))], axis=1))[0][:, 1:d + 1]
    return np.ones(d + 1) / (d + 1), U * math.sqrt(d + 1)


def amplification(fn, *args):
    """How much fn (arrays -> tuple of arrays) amplifies a perturbation of its inputs; infinite if it fails."""
    base = fn(*args)
    out = 1.
    for seed in (1, 2):
        rng = np.random.default_rng(seed)
        pert = []
        for a in args:
            e = rng.uniform(-1, 1, size=a.shape)
            if a.ndim >= 2 and a.shape[-1] == a.shape[-2]:
                e = (e + np.swapaxes(e, -1, -2)) / 2
            pert.append(a + 1e-8 * (1 + np.max(np.abs(a))) * e)
        try:
            other = fn(*pert)
        except np.linalg.LinAlgError:
            return math.inf
        for a, b in zip(base, other):
            v = float(np.max(np.abs(a - b)) / (1 + np.max(np.abs(a)))) / 1e-8
            if not math.isfinite(v):
                return math.inf
            out = max(out, v)
    return out
