from ..core import *
from .. import oracles as o, modelsg as M
import jax
import jax.numpy as jnp
from functools import partial
from mfs.classical_filters_smoothers.gfs import ekf, eks, sgp_filter, sgp_smoother
from mfs.classical_filters_smoothers.quadratures import SigmaPoints

PROP = Prop('C18', rule='a nonlinear model, or a multidimensional affine one, with at least two measurements',
            assumptions=['double precision (jax x64) is enabled', 'the square root used to place sigma points is the lower Cholesky factor',
                         'sigma points have unit total weight, zero mean and identity covariance'])
DIMS = [(1, 1, 4), (2, 1, 4), (2, 2, 4), (3, 2, 3), (1, 2, 3), (3, 1, 1), (2, 3, 2), (5, 2, 2), (1, 1, 20)]


def make_rule(rule, d, w, xi):
    if rule == 'cubature':
        return SigmaPoints.cubature(d)
    if rule.startswith('gh'):
        return SigmaPoints.gauss_hermite(d, int(rule[2:]))
    return SigmaPoints(d=d, n_points=xi.shape[0], w=w, wc=None, xi=xi)


def scaled(P, u):
    """The model with states and measurements in units of 1 / u."""
    sc = lambda r: (r[0] * u, r[1] * u ** 2)
    return lambda x, t: sc(M.state(P, x / u, t, jnp)), lambda x: sc(M.meas(P, x / u, jnp))


@partial(jax.jit, static_argnums=(0, 1))
def run_ekf(fwd, smooth, P, m0, v0, dt, ys, u):
    st_, me_ = scaled(P, u)
    out = ekf(st_, me_, m0, v0, dt, ys, **({} if fwd is None else dict(fwd_jacobian=fwd)))
    return out, (eks(st_, out[0], out[1], dt) if smooth else None)


@partial(jax.jit, static_argnums=(0, 1))
def run_sgp(rule, const, P, w, xi, m0, v0, dt, ys, u):
    st_, me_ = scaled(P, u)
    s = make_rule(rule, m0.shape[0], w, xi)
    out = sgp_filter(st_, me_, s, m0, v0, dt, ys, **({} if const is None else dict(const_measurement_cov=const)))
    return out, sgp_smoother(st_, s, out[0], out[1], dt)


@st.composite
def case(draw, sgp):
    dx, dy, T = draw(st.sampled_from(DIMS))
    m = draw(M.model(dx, dy))
    c = dict(model=m, unit=draw(st.sampled_from(M.UNITS)), m0=draw(vec(q(-2, 2, 16), dx)), P0=draw(tril(dx, off=0.75, lo=0.25, hi=1.5)), dt=draw(qpos(0.05, 1.5, 32)), ys=draw(mat(q(-3, 3, 16), T, dy)))
    if sgp:
        c.update(rule=draw(st.sampled_from(M.RULES)), rot=draw(st.integers(0, 99)), const=draw(st.sampled_from([None, False, True])))
    else:
        c.update(fwd=draw(st.sampled_from([None, False, True])))
    return c


def compare(ctx, out, sm, ref, rs, tol=1e-8):
    ctx.equal(len(out), 3, 'number of outputs')
    a = 1 + max(np.max(np.abs(ref[0])), np.max(np.abs(rs[0])))
    b = 1 + max(np.max(np.abs(ref[1])), np.max(np.abs(rs[1])))
    ctx.close(out[0], ref[0], 'filter means', tol=tol * a)
    ctx.close(out[1], ref[1], 'filter covariances', tol=tol * b)
    ctx.close(out[2], ref[2], 'negative log likelihoods', tol=tol * (1 + np.abs(ref[2])))
    ctx.equal(len(sm), 2, 'number of outputs')
    ctx.close(sm[0], rs[0], 'smoother means', tol=tol * a)
    ctx.close(sm[1], rs[1], 'smoother covariances', tol=tol * b)


def guard(ctx, predict, ref, filt, m0, P0):
    """Histories that double precision resolves: bounded sizes, well-conditioned predictions."""
    if not all(np.all(np.isfinite(v)) for v in ref) or np.max(np.abs(ref[0])) > 1e4 or np.max(np.abs(ref[1])) > 1e4:
        ctx.inconclusive('the model explodes')
    for m, P in zip(ref[0], ref[1]):
        if np.linalg.cond(predict(m, P)[1]) > 1e6 or np.linalg.cond(P) > 1e6:
            ctx.inconclusive('nearly singular covariance')
    if M.amplification(filt, m0, P0) > 1e3 or M.amplification(lambda a, b: M.ref_smoother(predict, a, b), ref[0], ref[1]) > 1e3:
        ctx.inconclusive('the model explodes')


def affine_truth(ctx, c, P, m0, P0, dt, ys, out, sm):
    """Affine model: exact Gaussian conditioning of the augmented homogeneous model."""
    dx, dy = len(m0), ys.shape[1]
    F = np.eye(dx) + dt * P['A']
    Q = dt * P['SL'] @ P['SL'].T
    b = dt * P['b']
    Fa = np.block([[F, b[:, None]], [np.zeros((1, dx)), np.ones((1, 1))]])
    Qa = np.pad(Q, ((0, 1), (0, 1)))
    Ha = np.concatenate([P['H'], P['h0'][:, None]], axis=1)
    mf, vf, nll, ms, vs = o.batch_gaussian(Fa, Qa, Ha, P['RL'] @ P['RL'].T, np.append(m0, 1.), np.pad(P0, ((0, 1), (0, 1))), ys)
    compare(ctx, out, sm, (mf[:, :dx], vf[:, :dx, :dx], nll), (ms[:, :dx], vs[:, :dx, :dx]))


def check(c, ctx, sgp):
    m = c['model']
    if sgp and c['const']:
        m = dict(m, r1=0.)
    P = M.params(m)
    m0, P0, dt, ys = np.array(c['m0']), spd(c['P0']), c['dt'], np.array(c['ys'])
    dx, dy, T = len(m0), ys.shape[1], len(ys)
    ctx.label(f'dx={dx}', f'dy={dy}', f'T={T}', 'affine' if m['affine'] else 'nonlinear')
    ctx.nt(T >= 2 and (not m['affine'] or dx > 1))
    u = 2. ** c['unit']
    ctx.label(f'unit 2^{c["unit"]}')
    J = {k: jnp.asarray(v) for k, v in P.items()}
    if sgp:
        ctx.label(c['rule'], f'const={c["const"]}')
        w, xi = M.sigma_rule(c['rule'], dx, c['rot'])
        pred = M.sgp_predict(P, dt, w, xi)
        filt = lambda a, b: M.ref_filter('sgp', P, a, b, dt, ys, w, xi, pred)
        try:
            ref = filt(m0, P0)
        except np.linalg.LinAlgError:
            ctx.inconclusive('covariance not positive definite')
        guard(ctx, pred, ref, filt, m0, P0)
        rs = M.ref_smoother(pred, ref[0], ref[1])
        out, sm = ctx.call('sgp filter/smoother', run_sgp, c['rule'], c['const'], J, jnp.asarray(w), jnp.asarray(xi), jnp.asarray(m0 * u), jnp.asarray(P0 * u ** 2), dt, jnp.asarray(ys * u), u)
    else:
        ctx.label(f'fwd={c["fwd"]}')
        pred = M.ekf_predict(P, dt)
        filt = lambda a, b: M.ref_filter('ekf', P, a, b, dt, ys, predict=pred)
        ref = filt(m0, P0)
        guard(ctx, pred, ref, filt, m0, P0)
        rs = M.ref_smoother(pred, ref[0], ref[1])
        out, sm = ctx.call('ekf/eks', run_ekf, c['fwd'], True, J, jnp.asarray(m0 * u), jnp.asarray(P0 * u ** 2), dt, jnp.asarray(ys * u), u)
    out, sm = M.unscale(out, u, dy), M.unscale(sm, u, dy)
    compare(ctx, out, sm, ref, rs)
    if m['affine']:
        affine_truth(ctx, c, P, m0, P0, dt, ys, out, sm)


PROP.sub('extended', case(False), quick=300, thorough=6000, shards=3)(lambda c, ctx: check(c, ctx, False))
PROP.sub('sigma_point', case(True), quick=500, thorough=8000, shards=5)(lambda c, ctx: check(c, ctx, True))
