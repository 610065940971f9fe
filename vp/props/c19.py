from ..core import *
from .. import oracles as o, modelsg as M
import jax
import jax.numpy as jnp
import scipy.linalg as sl
from functools import partial
from .c18 import make_rule
from mfs.classical_filters_smoothers.gfs import cd_ekf, cd_eks, cd_sgp_filter, cd_sgp_smoother
from mfs.classical_filters_smoothers.quadratures import rk4_m_cov, rk4_m_cov_backward

PROP = Prop('C19', rule='a nonlinear SDE or a multidimensional linear one, with non-zero dispersion',
            assumptions=['double precision (jax x64) is enabled', 'the square root used to place sigma points is the lower Cholesky factor',
                         'histories along which a Runge-Kutta stage leaves the positive definite cone are inconclusive'])
DIMS = [(1, 1, 1, 4), (2, 2, 1, 4), (2, 1, 2, 4), (3, 2, 2, 3), (1, 2, 2, 2), (2, 3, 1, 1), (3, 3, 1, 3), (4, 2, 3, 2), (1, 1, 1, 20)]


def disp(P, x, xp, const):
    return P['L'] if const else P['L'] + P['l1'] * xp.sin(x)[:, None] * xp.ones_like(P['L'])


# ------------------------------------------------------------------------------------------------ reference
def rk4(f, z, h):
    k1 = f(z)
    k2 = f([a + h / 2 * b for a, b in zip(z, k1)])
    k3 = f([a + h / 2 * b for a, b in zip(z, k2)])
    k4 = f([a + h * b for a, b in zip(z, k3)])
    return [a + h / 6 * (p + 2 * q_ + 2 * r + s) for a, p, q_, r, s in zip(z, k1, k2, k3, k4)]


def ode_ekf(P):
    def f(z):
        m, v = z
        A, L = M.drift_jac(P, m), disp(P, m, np, False)
        return [M.drift(P, m, np), v @ A.T + A @ v + L @ L.T]

    return f


def sgp_parts(P, w, xi, m, v):
    chi = m + xi @ np.linalg.cholesky((v + v.T) / 2).T
    fs = np.array([M.drift(P, x, np) for x in chi])
    C = np.einsum('i,ij,ik->jk', w, chi - m, fs)
    return w @ fs, C + C.T


def ode_sgp(P, w, xi):
    def f(z):
        a, b = sgp_parts(P, w, xi, *z)
        return [a, b + P['L'] @ P['L'].T]

    return f


def ode_eks(P, mf, vf):
    def f(z):
        m, v = z
        L = disp(P, m, np, False)
        g = L @ L.T
        B = M.drift_jac(P, m) + np.linalg.solve(vf, g).T
        return [M.drift(P, m, np) + g @ np.linalg.solve(vf, m - mf), B @ v + v @ B.T - g]

    return f


def ode_sgps(P, w, xi, mf, vf):
    g = P['L'] @ P['L'].T
    B = np.linalg.solve(vf, g).T

    def f(z):
        m, v = z
        a, b = sgp_parts(P, w, xi, m, v)
        return [a + B @ (m - mf), b + B @ v + v @ B.T - g]

    return f


def ref_smooth(ode, mfs, vfs, dt):
    ms, vs = [mfs[-1]], [vfs[-1]]
    for m, P in zip(mfs[-2::-1], vfs[-2::-1]):
        a, b = rk4(ode(m, P), [ms[-1], vs[-1]], -dt)
        ms.append(a), vs.append(b)
    return np.array(ms[::-1]), np.array(vs[::-1])


# ------------------------------------------------------------------------------------------------ code under test
def scaled(P, u):
    """The SDE with states and measurements in units of 1 / u."""
    def me(x):
        h, R = M.meas(P, x / u, jnp)
        return h * u, R * u ** 2

    return lambda x: M.drift(P, x / u, jnp) * u, lambda x: disp(P, x / u, jnp, False) * u, me


@partial(jax.jit, static_argnums=(0,))
def run_ekf(fwd, P, m0, v0, dt, ys, u=1.):
    return cd_ekf(*scaled(P, u), m0, v0, dt, ys, **({} if fwd is None else dict(fwd_jacobian=fwd)))


@jax.jit
def run_eks(P, mfs, vfs, dt, u=1.):
    return cd_eks(*scaled(P, u)[:2], mfs, vfs, dt)


@partial(jax.jit, static_argnums=(0, 1))
def run_sgp(rule, const, P, w, xi, m0, v0, dt, ys, u=1.):
    dr, _, me = scaled(P, u)
    return cd_sgp_filter(dr, P['L'] * u, me, make_rule(rule, m0.shape[0], w, xi), m0, v0, dt, ys,
                         **({} if const is None else dict(const_measurement_cov=const)))


@partial(jax.jit, static_argnums=(0,))
def run_sgps(rule, P, w, xi, mfs, vfs, dt, u=1.):
    return cd_sgp_smoother(scaled(P, u)[0], P['L'] * u, make_rule(rule, mfs.shape[1], w, xi), mfs, vfs, dt)


@st.composite
def case(draw, sgp):
    dx, dw, dy, T = draw(st.sampled_from(DIMS))
    m = draw(M.model(dx, dy))
    c = dict(model=m, unit=draw(st.sampled_from(M.UNITS)), L=draw(mat(q(-1, 1, 16), dx, dw)), l1=draw(q(0, 0.75, 8)), m0=draw(vec(q(-2, 2, 16), dx)), P0=draw(tril(dx, off=0.5, lo=0.75, hi=1.5)),
             dt=draw(qpos(0.01, 0.4, 64)), ys=draw(mat(q(-3, 3, 16), T, dy)))
    if sgp:
        c.update(rule=draw(st.sampled_from(M.RULES)), rot=draw(st.integers(0, 99)), const=draw(st.sampled_from([None, False, True])))
    else:
        c.update(fwd=draw(st.sampled_from([None, False, True])))
    return c


def close4(ctx, out, ref, what, tol=1e-8):
    a, b = 1 + np.max(np.abs(ref[0])), 1 + np.max(np.abs(ref[1]))
    ctx.close(out[0], ref[0], f'{what} means', tol=tol * a)
    ctx.close(out[1], ref[1], f'{what} covariances', tol=tol * b)


def resolvable(ctx, *arrs):
    for a in arrs:
        if not np.all(np.isfinite(a)) or np.max(np.abs(a)) > 1e4:
            ctx.inconclusive('the model explodes')
    for P in arrs[1]:
        if np.min(np.linalg.eigvalsh((P + P.T) / 2)) < 1e-3:
            ctx.inconclusive('nearly singular covariance')


def check(c, ctx, sgp):
    m = c['model']
    if sgp and c['const']:
        m = dict(m, r1=0.)
    P = M.params(m)
    P['L'], P['l1'] = np.array(c['L']), np.float64(0. if sgp else c['l1'])
    m0, P0, dt, ys = np.array(c['m0']), spd(c['P0']), c['dt'], np.array(c['ys'])
    dx, dy, T = len(m0), ys.shape[1], len(ys)
    ctx.label(f'dx={dx}', f'dw={P["L"].shape[1]}', f'dy={dy}', f'T={T}', 'affine' if m['affine'] else 'nonlinear')
    ctx.nt((not m['affine'] or dx > 1) and np.any(P['L']))
    u = 2. ** c['unit']
    ctx.label(f'unit 2^{c["unit"]}')
    J = {k: jnp.asarray(v) for k, v in P.items()}
    A = jnp.asarray
    try:
        if sgp:
            ctx.label(c['rule'], f'const={c["const"]}')
            w, xi = M.sigma_rule(c['rule'], dx, c['rot'])
            ode, sode = ode_sgp(P, w, xi), lambda a, b: ode_sgps(P, w, xi, a, b)
            filt = lambda a, b: M.ref_filter('sgp', P, a, b, dt, ys, w, xi, predict=lambda a, b: rk4(ode, [a, b], dt))
        else:
            ctx.label(f'fwd={c["fwd"]}')
            ode, sode = ode_ekf(P), lambda a, b: ode_eks(P, a, b)
            filt = lambda a, b: M.ref_filter('ekf', P, a, b, dt, ys, predict=lambda a, b: rk4(ode, [a, b], dt))
        ref = filt(m0, P0)
    except np.linalg.LinAlgError:
        ctx.inconclusive('stage left the positive definite cone')
    resolvable(ctx, ref[0], ref[1])
    amp = M.amplification(filt, m0, P0)
    if amp > 1e3:
        ctx.inconclusive('the model explodes')
    if sgp:
        out = ctx.call('cd_sgp_filter', run_sgp, c['rule'], c['const'], J, A(w), A(xi), A(m0 * u), A(P0 * u ** 2), dt, A(ys * u), u)
    else:
        out = ctx.call('cd_ekf', run_ekf, c['fwd'], J, A(m0 * u), A(P0 * u ** 2), dt, A(ys * u), u)
    ctx.equal(len(out), 3, 'number of outputs')
    out = M.unscale(out, u, dy)
    close4(ctx, out, ref, 'filter', 1e-9 * amp + 1e-9)
    ctx.close(out[2], ref[2], 'negative log likelihoods', tol=(1e-9 * amp + 1e-9) * (1 + np.abs(ref[2])))
    try:
        rs = ref_smooth(sode, ref[0], ref[1], dt)
    except np.linalg.LinAlgError:
        ctx.label('smoother stage left the positive definite cone')
        return
    if not np.all(np.isfinite(rs[1])) or np.max(np.abs(rs[1])) > 1e3 or np.max(np.abs(rs[0])) > 1e3 or (sgp and min(np.min(np.linalg.eigvalsh(v)) for v in rs[1]) < 1e-3):
        ctx.label('smoother not resolvable')
        return
    amp = M.amplification(lambda a, b: ref_smooth(sode, a, b, dt), ref[0], ref[1])
    if amp > 1e3:
        ctx.label('smoother not resolvable')
        return
    if sgp:
        sm = ctx.call('cd_sgp_smoother', run_sgps, c['rule'], J, A(w), A(xi), A(ref[0] * u), A(ref[1] * u ** 2), dt, u)
    else:
        sm = ctx.call('cd_eks', run_eks, J, A(ref[0] * u), A(ref[1] * u ** 2), dt, u)
    ctx.label('smoothed')
    ctx.equal(len(sm), 2, 'number of outputs')
    sm = M.unscale(sm, u, dy)
    close4(ctx, sm, rs, 'smoother', 1e-9 * amp)
    ctx.true(np.array_equal(np.asarray(sm[0])[-1], ref[0][-1]) and np.array_equal(np.asarray(sm[1])[-1], ref[1][-1]), 'last smoothed state is not the last filtered one')


PROP.sub('extended', case(False), quick=280, thorough=6000, shards=3)(lambda c, ctx: check(c, ctx, False))
PROP.sub('sigma_point', case(True), quick=400, thorough=8000, shards=5)(lambda c, ctx: check(c, ctx, True))


# ------------------------------------------------------------------------------------------------ linear SDEs: truth and order
def exact_disc(A, b, G, h):
    d = len(A)
    Fa = sl.expm(np.block([[A, b[:, None]], [np.zeros((1, d + 1))]]) * h)
    Z = sl.expm(np.block([[-A, G], [np.zeros((d, d)), A.T]]) * h)
    F = Fa[:d, :d]
    return F, Fa[:d, d], F @ Z[:d, d:]


@st.composite
def lin(draw):
    dx = draw(st.integers(1, 3))
    dw = draw(st.integers(1, 2))
    return dict(A=draw(mat(q(-1.5, 1.5, 16), dx, dx)), b=draw(vec(q(-1, 1, 16), dx)), L=draw(mat(q(-1, 1, 16), dx, dw)), m0=draw(vec(q(-2, 2, 16), dx)),
                P0=draw(tril(dx, off=0.5, lo=0.75, hi=1.5)), L1=draw(tril(dx, off=0.5, lo=0.5, hi=1.)), m1=draw(vec(q(-2, 2, 16), dx)), sgp=draw(st.booleans()))


def lin_params(c):
    A, b, L = np.array(c['A']), np.array(c['b']), np.array(c['L'])
    d = len(A)
    P = dict(A=A, b=b, C=np.zeros((d, d)), V=np.zeros((d, d)), SL=np.eye(d), s1=np.float64(0), H=np.zeros((1, d)), h0=np.zeros(1), K=np.zeros((1, d)),
             RL=np.eye(1), r1=np.float64(0), L=L, l1=np.float64(0))
    return P, A, b, L @ L.T


@PROP.sub('linear_order', lin(), quick=150, thorough=2000, shards=4)
def order(c, ctx):
    """On a linear SDE without informative measurements, the filter approaches the exact law with the fourth power of the step, and one smoothing step
    approaches the Rauch-Tung-Striebel step."""
    P, A, b, G = lin_params(c)
    d = len(A)
    J = {k: jnp.asarray(v) for k, v in P.items()}
    m0, P0 = np.array(c['m0']), spd(c['P0'])
    ctx.label(f'd={d}', 'sigma point' if c['sgp'] else 'extended')
    ctx.nt(np.any(A) and np.any(P['L']))
    w, xi = M.sigma_rule('cubature', d)
    Aj = jnp.asarray
    errs = []
    H = 1 / (1 + np.linalg.norm(A, 2))
    F, u, Q = exact_disc(A, b, G, H)
    em, eP = F @ m0 + u, F @ P0 @ F.T + Q
    for n in (4, 8):
        ys = jnp.zeros((n, 1))
        out = ctx.call('filter', run_sgp, 'cubature', None, J, Aj(w), Aj(xi), Aj(m0), Aj(P0), H / n, ys) if c['sgp'] else ctx.call('filter', run_ekf, None, J, Aj(m0), Aj(P0), H / n, ys)
        ctx.arr(out[0], (n, d), 'means'), ctx.arr(out[1], (n, d, d), 'covariances')
        errs.append((np.linalg.norm(np.asarray(out[0])[-1] - em) + np.linalg.norm(np.asarray(out[1])[-1] - eP)) / (1 + np.linalg.norm(em) + np.linalg.norm(eP)))
    ctx.true(errs[0] <= 1e-3, 'filter far from the exact law', errors=errs)
    ctx.true(errs[1] <= max(errs[0] / 10, 1e-9), 'filter does not converge at fourth order', errors=errs)
    # smoothing: a single backward step from an arbitrary later state
    m1 = np.array(c['m1'])
    P1 = spd(c['L1'])
    errs = []
    h0 = 2. ** -9 / (1 + np.linalg.norm(A, 2) + np.linalg.norm(G, 2) * np.linalg.norm(np.linalg.inv(P0), 2))
    for h in (h0, h0 / 4):
        F, u, Q = exact_disc(A, b, G, h)
        mp, Pp = F @ m0 + u, F @ P0 @ F.T + Q
        Gn = np.linalg.solve(Pp, F @ P0).T
        em, eP = m0 + Gn @ (m1 - mp), P0 + Gn @ (P1 - Pp) @ Gn.T
        mfs, vfs = Aj(np.stack([m0, m1])), Aj(np.stack([P0, P1]))
        out = ctx.call('smoother', run_sgps, 'cubature', J, Aj(w), Aj(xi), mfs, vfs, h) if c['sgp'] else ctx.call('smoother', run_eks, J, mfs, vfs, h)
        ctx.arr(out[0], (2, d), 'means'), ctx.arr(out[1], (2, d, d), 'covariances')
        errs.append((np.linalg.norm(np.asarray(out[0])[0] - em) + np.linalg.norm(np.asarray(out[1])[0] - eP)) / (1 + np.linalg.norm(em) + np.linalg.norm(eP)))
    ctx.true(errs[0] <= 1e-3, 'smoother far from the exact one', errors=errs)
    ctx.true(errs[1] <= max(errs[0] / 10, 1e-10), 'smoother does not converge to the exact one', errors=errs)


@st.composite
def linmeas(draw):
    dx, dw, dy, T = draw(st.sampled_from(DIMS))
    return dict(model=draw(M.model(dx, dy, affine=True)), L=draw(mat(q(-1, 1, 16), dx, dw)), m0=draw(vec(q(-2, 2, 16), dx)), P0=draw(tril(dx, off=0.5, lo=0.75, hi=1.5)),
                dt=draw(qpos(0.01, 0.2, 64)), ys=draw(mat(q(-3, 3, 16), T, dy)), rule=draw(st.sampled_from(M.RULES)), rot=draw(st.integers(0, 99)))


@PROP.sub('linear_agreement', linmeas(), quick=200, thorough=3000, shards=4)
def agree(c, ctx):
    """On linear SDEs the extended and the sigma-point versions coincide and are close to the exact discretised Kalman filter."""
    P = M.params(c['model'])
    P['L'], P['l1'] = np.array(c['L']), np.float64(0)
    m0, P0, dt, ys = np.array(c['m0']), spd(c['P0']), c['dt'], np.array(c['ys'])
    dx = len(m0)
    ctx.label(f'dx={dx}', c['rule'])
    ctx.nt(dx > 1 and np.any(P['L']))
    w, xi = M.sigma_rule(c['rule'], dx, c['rot'])
    J = {k: jnp.asarray(v) for k, v in P.items()}
    Aj = jnp.asarray
    a = ctx.call('cd_ekf', run_ekf, None, J, Aj(m0), Aj(P0), dt, Aj(ys))
    b = ctx.call('cd_sgp_filter', run_sgp, c['rule'], None, J, Aj(w), Aj(xi), Aj(m0), Aj(P0), dt, Aj(ys))
    F, u, Q = exact_disc(P['A'], P['b'], P['L'] @ P['L'].T, dt)
    m, v, n, ref = m0, P0, 0., [[], [], []]
    for y in ys:
        m, v = F @ m + u, F @ v @ F.T + Q
        m, v, i = M.lin_update(m, v, P['H'], y - P['h0'] - P['H'] @ m, P['RL'] @ P['RL'].T)
        n = n + i
        ref[0].append(m), ref[1].append(v), ref[2].append(n)
    ref = [np.array(r) for r in ref]
    resolvable(ctx, ref[0], ref[1])
    close4(ctx, b, [np.asarray(v) for v in a], 'extended vs sigma-point', 1e-9)
    ctx.close(b[2], np.asarray(a[2]), 'extended vs sigma-point likelihoods', tol=1e-9 * (1 + np.abs(np.asarray(a[2]))))
    z = dt * (1 + np.linalg.norm(P['A'], 2))
    t = 1e-9 + 60 * z ** 5 * (1 + np.linalg.norm(P['H'], 2) ** 2 * np.linalg.norm(np.linalg.inv(P['RL'] @ P['RL'].T), 2)) * (1 + np.linalg.norm(P0, 2))
    close4(ctx, a, ref, 'exact discretisation: filter', t)
    ctx.close(a[2], ref[2], 'exact discretisation: likelihood', tol=t * (10 + np.abs(ref[2]) + 10 * np.max(np.abs(ys)) ** 2))
    sa = ctx.call('cd_eks', run_eks, J, a[0], a[1], dt)
    sb = ctx.call('cd_sgp_smoother', run_sgps, c['rule'], J, Aj(w), Aj(xi), a[0], a[1], dt)
    if not all(np.all(np.isfinite(np.asarray(v))) for v in sb) or np.max(np.abs(np.asarray(sa[1]))) > 1e3 or min(np.min(np.linalg.eigvalsh(v)) for v in np.asarray(sa[1])) < 1e-3:
        ctx.label('smoother not resolvable')
        return
    amp = M.amplification(lambda x, y: ref_smooth(lambda p, r: ode_eks(P, p, r), x, y, dt), np.asarray(a[0]), np.asarray(a[1]))
    if amp < 1e3:
        close4(ctx, sb, [np.asarray(v) for v in sa], 'extended vs sigma-point smoother', 1e-9 * amp)


# ------------------------------------------------------------------------------------------------ RK4 itself
@st.composite
def rkcase(draw):
    d = draw(st.integers(1, 3))
    return dict(d=d, A=draw(mat(q(-2, 2, 16), d, d)), B=draw(mat(q(-2, 2, 16), d, d)), m=draw(vec(q(-2, 2, 16), d)), v=draw(mat(q(-2, 2, 16), d, d)), mf=draw(vec(q(-2, 2, 16), d)),
                vf=draw(mat(q(-2, 2, 16), d, d)), h=draw(q(-1, 1, 64)), s=draw(q(-1, 1, 8)))


@PROP.sub('rk4', rkcase(), quick=200, thorough=3000)
def rk(c, ctx):
    """One classical fourth-order step: exact fourth-degree Taylor polynomial on linear equations, and equal to the reference on coupled nonlinear ones."""
    g = {k: np.array(c[k]) for k in 'A B m v mf vf'.split()}
    A, B, m, v, mf, vf, h, s = g['A'], g['B'], g['m'], g['v'], g['mf'], g['vf'], c['h'], c['s']
    ctx.label(f'd={c["d"]}')
    ctx.nt(h != 0 and np.any(A))
    tay = lambda f, z: sum(h ** k / math.factorial(k) * t for k, t in enumerate(powers(f, z)))

    def powers(f, z):
        out = [z]
        for _ in range(4):
            out.append(f(out[-1]))
        return out

    lm, lv = (lambda x: A @ x), (lambda x: A @ x + x @ B)
    sz = (1 + abs(h) * (np.linalg.norm(A, 2) + np.linalg.norm(B, 2))) ** 4 * 10
    out = ctx.call('rk4_m_cov', rk4_m_cov, lambda a, b: (A @ a, A @ b + b @ B), m, v, h)
    ctx.close(out[0], tay(lm, m), 'mean', tol=1e-13 * sz), ctx.close(out[1], tay(lv, v), 'covariance', tol=1e-13 * sz)
    out = ctx.call('rk4_m_cov_backward', rk4_m_cov_backward, lambda a, b, p, r: (A @ a, A @ b + b @ B), m, v, mf, vf, h)
    ctx.close(out[0], tay(lm, m), 'backward mean', tol=1e-13 * sz), ctx.close(out[1], tay(lv, v), 'backward covariance', tol=1e-13 * sz)
    f = lambda a, b: (np.sin(A @ a) + s * b @ a, np.cos(B @ b) + s * np.outer(a, np.sin(a)))
    fb = lambda a, b, p, r: (np.sin(A @ a) + s * b @ a + r @ (a - p), np.cos(B @ b) + s * np.outer(a, np.sin(p)) + r)
    r = rk4(lambda z: list(f(*z)), [m, v], h)
    out = ctx.call('rk4_m_cov', rk4_m_cov, f, m, v, h)
    ctx.close(out[0], r[0], 'mean', tol=1e-11 * (1 + np.abs(r[0])) * sz), ctx.close(out[1], r[1], 'covariance', tol=1e-11 * (1 + np.abs(r[1])) * sz)
    r = rk4(lambda z: list(fb(*z, mf, vf)), [m, v], h)
    out = ctx.call('rk4_m_cov_backward', rk4_m_cov_backward, fb, m, v, mf, vf, h)
    ctx.close(out[0], r[0], 'backward mean', tol=1e-11 * (1 + np.abs(r[0])) * sz), ctx.close(out[1], r[1], 'backward covariance', tol=1e-11 * (1 + np.abs(r[1])) * sz)
