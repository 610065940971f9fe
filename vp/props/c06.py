from ..core import *
from .. import oracles as o, gen, models1d as M, modelsnd as MN
import itertools
import jax
import jax.numpy as jnp
import mpmath as mp
from functools import partial
from mfs.one_dim.filtering import moment_filter_rms, moment_filter_cms, moment_filter_scms
from mfs.multi_dims import filtering as F
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico, generate_graded_lexico_multi_indices

PROP = Prop('C06', rule='at least two nodes per coordinate and, for each sub-check: an update of positive degree or two steps (polynomial), an informative likelihood (finite '
                        'state, Kalman)',
            assumptions=['double precision (jax x64) is enabled', 'histories whose moment matrices are ill-conditioned in double precision are inconclusive',
                         'convergence to the Kalman solution is judged by error bounds calibrated for the stated range of models (signal-to-noise ratio below one)'])
MODES = ('raw', 'central', 'scaled')
NA = 4  # atoms of the noise
UNIT = st.sampled_from([1., 1., 1., 1., 1e-12, 1e-40, 1e15])  # a likelihood is a density in whatever unit of the measurement


# ------------------------------------------------------------------------------------------------ generic callers
def in_units(family, su):
    """The family for a state measured in units su (d,), powers of two: X -> su X."""
    cond, mv, lik = FAMILIES[family]

    def mean_vars(P, x, xp):
        m, v = mv(P, x / su, xp)
        return m * su, v * su ** 2

    return lambda P, x, n, c, s, xp: cond(P, x / su, n, c / su, s / su, xp), mean_vars, lambda P, y, x, xp: lik(P, y, x / su, xp)


@partial(jax.jit, static_argnums=(0, 1, 2, 3))
def run1(family, mode, nm, stable, P, ms0, mean0, scale0, ys, su):
    cond, mv, lik = in_units(family, su)
    C = lambda x, n, c, s: cond(P, x[:, None], n[:, None], jnp.asarray(c)[None], jnp.asarray(s)[None], jnp)
    MV = lambda x: tuple(v[:, 0] for v in mv(P, x[:, None], jnp))
    # the 1D filters may call the likelihood with any number of nodes, or one
    L = lambda y, x: lik(P, y, jnp.atleast_1d(x)[:, None], jnp).reshape(jnp.shape(x))
    if mode == 'raw':
        return moment_filter_rms(lambda x, n: C(x, n, 0., 1.), L, ms0, ys, stable=stable)
    if mode == 'central':
        return moment_filter_cms(lambda x, n, c: C(x, n, c, 1.), lambda x: MV(x)[0], L, ms0, mean0[0], ys, stable=stable)
    return moment_filter_scms(C, MV, L, ms0, mean0[0], scale0[0], ys, stable=stable)


@partial(jax.jit, static_argnums=(0, 1, 2, 3, 4, 5))
def runn(family, mode, d, N, stable, sig, P, ms0, mean0, scale0, ys, su):
    cond, mv, lik = in_units(family, su)
    mi, inds = generate_graded_lexico_multi_indices(d, 2 * N - 1), gram_and_hankel_indices_graded_lexico(N, d)
    Jm = jnp.asarray(mi)
    get = (lambda n: n) if sig == 'multi-index' else (lambda n: Jm[n])
    L = lambda y, x: lik(P, y, x[None, :], jnp)[0]
    MV = lambda x: mv(P, x, jnp)
    one, zero = jnp.ones(d), jnp.zeros(d)
    if mode == 'raw':
        return F.moment_filter_nd_rms((lambda x, n: cond(P, x, get(n), zero, one, jnp), sig), L, ys, (mi, inds), ms0, stable=stable)
    if mode == 'central':
        return F.moment_filter_nd_cms((lambda x, n, c: cond(P, x, get(n), c, one, jnp), sig), lambda x: MV(x)[0], L, ys, (mi, inds), ms0, mean0, stable=stable)
    return F.moment_filter_nd_scms((lambda x, n, c, s: cond(P, x, get(n), c, s, jnp), sig), MV, L, ys, (mi, inds), ms0, mean0, scale0, stable=stable)


def discrete_cond(nexts, probs, mi, c, s, xp):
    """nexts (k, a, d), probs (k, a), mi (z, d) -> (k, z)."""
    u = (nexts - c) / s
    return xp.einsum('kaz,ka->kz', xp.prod(u[:, :, None, :] ** mi, axis=-1), probs)


def discrete_mv(nexts, probs, xp):
    m = xp.einsum('kai,ka->ki', nexts, probs)
    return m, xp.einsum('kai,ka->ki', (nexts - m[:, None, :]) ** 2, probs)


# ------------------------------------------------------------------------------------------------ family: polynomial
def poly_next(P, x, xp):
    n = (P['b'] + x @ P['A'].T)[:, None, :] + (P['s0'] + P['s1'] * x)[:, None, :] * P['xi']
    return n, xp.ones((x.shape[0], 1)) * P['p']


def poly_lik(P, y, x, xp):
    """y = (degree, v, u): polynomials of x of total degree `degree` in {0, 1, 2, 3, 4}."""
    a, b = x @ P['h'] - y[1], x @ P['g'] - y[2]
    deg = xp.asarray([0.7 + 0. * a, 6. + a, 0.5 + a ** 2 + 0.5 * a * b + b ** 2, (0.5 + b ** 2) * (8. + a), (0.5 + a ** 2) * (1. + b ** 2)])
    return deg[y[0].astype(int)] * P['unit']


FAMILIES = dict(poly=(lambda P, x, mi, c, s, xp: discrete_cond(*poly_next(P, x, xp), mi, c, s, xp),
                      lambda P, x, xp: discrete_mv(*poly_next(P, x, xp), xp), poly_lik))


def noise_atoms(nk, d):
    rng = np.random.default_rng(nk)
    x = rng.normal(size=(NA, d)) * 1.1
    p = rng.dirichlet(6 * np.ones(NA))
    return x - p @ x, p


def prior_atoms(k, d, n):
    """n atoms, a jittered grid so that the moment matrices are well-conditioned."""
    rng = np.random.default_rng(k)
    x = rng.uniform(-1.5, 1.5, size=(n, d)) if d > 1 else (np.linspace(-1.5, 1.5, n) + rng.uniform(-0.1, 0.1, size=n))[:, None]
    return x * rng.uniform(0.6, 1.4, size=d) + rng.uniform(-1, 1, size=d), rng.dirichlet(3 * np.ones(n))


@st.composite
def poly_case(draw, d, Ns):
    N = draw(st.sampled_from(Ns))
    T = draw(st.sampled_from([1, 3]))
    degs = [draw(st.sampled_from([0, 0, 1, 2, 3, 4])) for _ in range(T)]
    return dict(d=d, N=N, mode=draw(st.sampled_from(MODES)), A=draw(mat(q(-0.75, 0.75, 16), d, d)), b=draw(vec(q(-1, 1, 16), d)),
                s0=draw(vec(qpos(0.3, 1, 16), d)), s1=draw(vec(q(-0.3, 0.3, 16), d)), nk=draw(st.integers(0, 9999)), pk=draw(st.integers(0, 9999)),
                h=draw(vec(q(-1, 1, 16), d)), g=draw(vec(q(-1, 1, 16), d)), ys=[[float(k), draw(q(-1, 1, 16)), draw(q(-1, 1, 16))] for k in degs],
                stable=draw(st.booleans()), sig=draw(st.sampled_from(['index', 'multi-index'])), unit=draw(UNIT),
                su=draw(st.one_of(st.just([0] * d), st.lists(st.sampled_from([-20, -12, 0, 12]), min_size=d, max_size=d))))


def tables(d, N):
    mi = MN.tables(d, N)[0]
    return mi, np.sum(mi, axis=1)


def moments_of(x, w, mi, c, s):
    u = (x - c) / s
    v = np.prod(u[:, None, :] ** mi, axis=-1)
    return w @ v, np.abs(w) @ np.abs(v)


class MPFamily:
    """A 1D family as an mpmath model of vp.models1d (used only to measure the conditioning of a history)."""

    def __init__(self, nxt, lik):
        self.nxt, self.lik_ = nxt, lik

    def mean(self, x):
        n, p = self.nxt(x)
        return mp.fsum([a * b for a, b in zip(n, p)])

    def var(self, x):
        n, p = self.nxt(x)
        m = mp.fsum([a * b for a, b in zip(n, p)])
        return mp.fsum([b * (a - m) ** 2 for a, b in zip(n, p)])

    def cond(self, x, k, c, s):
        n, p = self.nxt(x)
        return mp.fsum([b * ((a - c) / s) ** k for a, b in zip(n, p)])

    def lik(self, y, x):
        return self.lik_(y, x)


def conditioning(c, P, family, x0, w0, mi, mpm=None):
    """Relative error level (of absolute moments) that double precision can cause in this history; Inconclusive if too large."""
    d, N = c['d'], c['N']
    mean = w0 @ x0
    std = np.sqrt(w0 @ (x0 - mean) ** 2)
    if d == 1 and mpm is not None:
        raw0 = o.atom_moments_mp(w0, x0[:, 0], 2 * N)
        ex = M.summary(M.ref_filter(mpm, raw0, c['ys'], 2 * N), 2 * N)
        return M.error_level(ex, mpm, raw0, c['ys'], 2 * N, c['mode'])
    cond, mv, lik = FAMILIES[family]
    _, err = MN.reference(P, (moments_of(x0, w0, mi, mean, std)[0], mean, std), d, N, [np.array(y) for y in c['ys']], False,
                          cond=lambda x, cc, s: cond(P, x, mi, cc, s, np), cmv=lambda x: mv(P, x, np), lik=lambda y, x: lik(P, y, x, np))
    return err


def start(c, x0, w0, mi):
    d, mode = c['d'], c['mode']
    mean = w0 @ x0
    std = np.sqrt(w0 @ (x0 - mean) ** 2)
    cc, ss = (np.zeros(d), np.ones(d)) if mode == 'raw' else ((mean, np.ones(d)) if mode == 'central' else (mean, std))
    return moments_of(x0, w0, mi, cc, ss)[0], mean, std


def execute(c, ctx, family, P, x0, w0, mi):
    d, N, mode = c['d'], c['N'], c['mode']
    ms0, mean, std = start(c, x0, w0, mi)
    J = jnp.asarray
    PJ = {k: J(v) for k, v in P.items()}
    su = 2. ** np.array(c.get('su') or [0] * d, dtype=float)
    un = np.prod(su ** mi, axis=1) if mode != 'scaled' else 1.
    back = [un, su, su][:dict(raw=1, central=2, scaled=3)[mode]] + [1.]
    ms0, mean, std = ms0 * un, mean * su, std * su
    if d == 1 and c.get('one', True):
        out = ctx.call(f'{mode} filter', run1, family, mode, 2 * N, c['stable'], PJ, J(ms0), J(mean), J(std), J(c['ys']), J(su))
        out = [np.asarray(v) for v in out]
        return [a / b for a, b in zip([out[0]] + [v[:, None] for v in out[1:-1]] + [out[-1]], back)]
    out = ctx.call(f'{mode} filter (ND)', runn, family, mode, d, N, c['stable'], c['sig'], PJ, J(ms0), J(mean), J(std), J(c['ys']), J(su))
    return [np.asarray(a) / b for a, b in zip(out, back)]


def compare(c, ctx, out, laws, nell, rem, tol, mi, tot):
    """laws: per time (x, w) of the exact posterior; rem: per time the degree up to which moments are exact; nell: exact or None."""
    d, mode = c['d'], c['mode']
    for t, ((x, w), r) in enumerate(zip(laws, rem)):
        mean = w @ x
        var = w @ (x - mean) ** 2
        std = np.sqrt(np.maximum(var, 1e-8))
        ctx.close(out[0][t][0], 1., 'zeroth moment', tol=max(tol, 1e-9))
        if mode != 'raw' and r >= 1:
            ctx.close(out[1][t], mean, f'mean at step {t}', tol=tol * std + 1e-13 * np.abs(mean))
        if mode == 'scaled' and r >= 2:
            ctx.close(out[2][t], std, f'scale at step {t}', tol=tol * std)
        need = dict(raw=0, central=1, scaled=2)[mode]
        if r < need:
            continue
        cc, ss = (np.zeros(d), np.ones(d)) if mode == 'raw' else ((mean, np.ones(d)) if mode == 'central' else (mean, std))
        ex, ab = moments_of(x, w, mi, cc, ss)
        sel = tot <= r
        size = np.prod((np.ones(d) if mode == 'scaled' else std + (np.abs(mean) if mode == 'raw' else 0.)) ** mi, axis=1)
        ctx.close(out[0][t][sel], ex[sel], f'{mode} moments at step {t}', tol=(tol * (ab + size) + 1e-13 * ab)[sel])
    if nell is not None:
        ctx.close(out[-1], nell, 'negative log likelihood', tol=tol * len(laws))


def poly_params(c):
    xi, p = noise_atoms(c['nk'], c['d'])
    f = lambda k: np.array(c[k], dtype=float)
    return dict(A=f('A'), b=f('b'), s0=f('s0'), s1=f('s1'), xi=xi, p=p, h=f('h'), g=f('g'), unit=np.float64(c.get('unit', 1.)))


def poly_mp(P):
    f = lambda k: mp.mpf(float(np.asarray(P[k]).reshape(-1)[0]))
    A, b, s0, s1, h, g = [f(k) for k in ('A', 'b', 's0', 's1', 'h', 'g')]
    xi, pr = [mp.mpf(float(v)) for v in P['xi'][:, 0]], [mp.mpf(float(v)) for v in P['p']]

    def lik(y, x):
        a, bb = h * x - mp.mpf(y[1]), g * x - mp.mpf(y[2])
        return [mp.mpf(0.7), 6 + a, 0.5 + a ** 2 + a * bb / 2 + bb ** 2, (0.5 + bb ** 2) * (8 + a), (0.5 + a ** 2) * (1 + bb ** 2)][int(y[0])]

    return MPFamily(lambda x: ([A * x + b + (s0 + s1 * x) * v for v in xi], pr), lik)


def polynomial(c, ctx):
    d, N = c['d'], c['N']
    mi, tot = tables(d, N)
    P = poly_params(c)
    x0, w0 = prior_atoms(c['pk'], d, 12 if d == 1 else 14)
    tol = 500 * conditioning(c, P, 'poly', x0, w0, mi, poly_mp(P) if d == 1 else None) + 1e-9
    if not tol < 1e-4:
        ctx.inconclusive('ill-conditioned')
    laws, rem, nell, left, w, x = [], [], 0., 2 * N - 1, w0, x0
    for y in c['ys']:
        n, pr = poly_next(P, x, np)
        x, w = n.reshape(-1, d), (w[:, None] * pr).reshape(-1)
        l = poly_lik(P, np.array(y), x, np)
        left -= int(y[0])
        z = w @ l
        if left >= 0:
            nell -= math.log(z)
        w = w * l / z
        laws.append((x, w)), rem.append(left)
    ctx.nt(N >= 2 and (rem[0] >= 0) and (len(c['ys']) > 1 or c['ys'][0][0] > 0))
    ctx.label(c['mode'], f'd={d} N={N}', f'degrees left {max(left, -1)}', *[f'likelihood degree {int(y[0])}' for y in c['ys']])
    out = execute(c, ctx, 'poly', P, x0, w0, mi)
    ctx.arr(out[0], (len(c['ys']), len(mi)), 'moments')
    compare(c, ctx, out, laws, nell if left >= 0 else None, rem, tol, mi, tot)


@PROP.sub('polynomial_1d', poly_case(1, (1, 2, 3, 4, 5, 6)), quick=120, thorough=3000, shards=2)
def polynomial_1d(c, ctx):
    if c['N'] == 1 and c['mode'] == 'scaled':
        c = dict(c, mode='central')
    polynomial(c, ctx)


@PROP.sub('polynomial_nd', st.sampled_from([(2, 2), (2, 3), (3, 2), (1, 3), (2, 4)]).flatmap(lambda t: poly_case(t[0], (t[1],))), quick=90, thorough=2500, shards=3)
def polynomial_nd(c, ctx):
    polynomial(dict(c, one=False), ctx)


# ------------------------------------------------------------------------------------------------ family: finite state
def chain_next(P, x, xp):
    z = P['th'] + x @ P['ph']
    e = xp.exp(z - xp.max(z, axis=1, keepdims=True))
    return P['states'][None] + 0. * x[:, None, :], e / xp.sum(e, axis=1, keepdims=True)


def chain_lik(P, y, x, xp):
    """y = (kind, v)."""
    eta = x @ P['h'] + 0.5 * xp.sin(x[:, 0] * x[:, -1])
    v = xp.asarray([xp.exp(-0.5 * (y[1] - eta) ** 2) / math.sqrt(2 * math.pi), 1 / (1 + xp.exp(-y[1] * eta)), 0.1 + xp.cos(y[1] - eta) ** 2, 0.3 + 0. * eta])
    return v[y[0].astype(int)] * P['unit']


FAMILIES['chain'] = (lambda P, x, mi, c, s, xp: discrete_cond(*chain_next(P, x, xp), mi, c, s, xp),
                     lambda P, x, xp: discrete_mv(*chain_next(P, x, xp), xp), chain_lik)


@st.composite
def chain_case(draw, d, Ns):
    N = draw(st.sampled_from(Ns))
    n = math.comb(N - 1 + d, d)
    jit = draw(vec(vec(q(-0.3, 0.3, 32), d), n))
    base = [a for a in itertools.product(range(N), repeat=d) if sum(a) <= N - 1]
    return dict(d=d, N=N, mode=draw(st.sampled_from(MODES)), states=[[u + v for u, v in zip(a, b)] for a, b in zip(base, jit)], off=draw(vec(q(-2, 2, 16), d)),
                gap=draw(qpos(0.5, 2, 16)), th=draw(vec(q(-1, 1, 16), n)), ph=draw(mat(q(-0.5, 0.5, 16), d, n)), p0=draw(simplex(n, 16)),
                h=draw(vec(q(-1, 1, 16), d)), ys=[[float(draw(st.integers(0, 3))), draw(q(-2, 2, 16))] for _ in range(draw(st.sampled_from([1, 4])))],
                stable=draw(st.booleans()), sig=draw(st.sampled_from(['index', 'multi-index'])), unit=draw(UNIT))


def chain_mp(P):
    s, th, ph = [[mp.mpf(float(v)) for v in np.asarray(P[k]).reshape(-1)] for k in ('states', 'th', 'ph')]
    h = mp.mpf(float(P['h'][0]))

    def nxt(x):
        e = [mp.exp(a + b * x) for a, b in zip(th, ph)]
        z = mp.fsum(e)
        return s, [v / z for v in e]

    def lik(y, x):
        eta, v = h * x + mp.sin(x * x) / 2, mp.mpf(y[1])
        return [mp.exp(-(v - eta) ** 2 / 2) / mp.sqrt(2 * mp.pi), 1 / (1 + mp.exp(-v * eta)), mp.mpf(0.1) + mp.cos(v - eta) ** 2, mp.mpf(0.3)][int(y[0])]

    return MPFamily(nxt, lik)


def chain(c, ctx):
    d, N = c['d'], c['N']
    mi, tot = tables(d, N)
    f = lambda k: np.array(c[k], dtype=float)
    P = dict(states=f('states') * c['gap'] + f('off'), th=f('th'), ph=f('ph'), h=f('h'), unit=np.float64(c.get('unit', 1.)))
    x0, w0 = P['states'], f('p0') / np.sum(c['p0'])
    tol = 500 * conditioning(c, P, 'chain', x0, w0, mi, chain_mp(P) if d == 1 else None) + 1e-9
    if not tol < 1e-4:
        ctx.inconclusive('ill-conditioned')
    laws, nell, w = [], 0., w0
    tr = chain_next(P, x0, np)[1]
    for y in c['ys']:
        w = w @ tr
        l = chain_lik(P, np.array(y), x0, np)
        nell -= math.log(w @ l)
        w = w * l / (w @ l)
        laws.append((x0, w))
    ctx.nt(N >= 2 and any(y[0] != 3 for y in c['ys']))
    ctx.label(c['mode'], f'd={d} N={N} states={len(x0)}', f'T={len(c["ys"])}')
    out = execute(c, ctx, 'chain', P, x0, w0, mi)
    ctx.arr(out[0], (len(c['ys']), len(mi)), 'moments')
    compare(c, ctx, out, laws, nell, [2 * N - 1] * len(laws), tol, mi, tot)


@PROP.sub('finite_state_1d', chain_case(1, (2, 3, 4, 5)), quick=120, thorough=3000, shards=2)
def chain_1d(c, ctx):
    chain(c, ctx)


@PROP.sub('finite_state_nd', st.sampled_from([(2, 2), (2, 3), (3, 2), (1, 3)]).flatmap(lambda t: chain_case(t[0], (t[1],))), quick=90, thorough=2500, shards=3)
def chain_nd(c, ctx):
    chain(dict(c, one=False), ctx)


# ------------------------------------------------------------------------------------------------ Kalman limit
def kalman_lik(P, y, x, xp):
    return xp.exp(-0.5 * ((y - x @ P['h']) / P['r']) ** 2) / (P['r'] * math.sqrt(2 * math.pi))


FAMILIES['kalman'] = (FAMILIES['poly'][0], FAMILIES['poly'][1], kalman_lik)


@st.composite
def kalman_case(draw, d):
    return dict(d=d, mode=draw(st.sampled_from(MODES)), A=draw(mat(q(-0.5, 0.5, 16) if d > 1 else q(-0.9, 0.9, 16), d, d)), b=draw(vec(q(-0.5, 0.5, 16), d)),
                L=draw(tril(d, off=0.25, lo=0.4, hi=0.7)), L0=draw(tril(d, off=0.25, lo=0.5, hi=1.)), m0=draw(vec(q(-1, 1, 16), d)), h=draw(vec(q(-0.75, 0.75, 16), d)),
                r=draw(qpos(1., 2., 16)), ys=[draw(q(-2, 2, 16)) for _ in range(3)], stable=draw(st.booleans()), sig=draw(st.sampled_from(['index', 'multi-index'])))


def gauss_atoms(d, k):
    z, w = np.polynomial.hermite_e.hermegauss(k)
    w = w / np.sum(w)
    Z = np.array(list(itertools.product(z, repeat=d)))
    return Z, np.prod(np.array(list(itertools.product(w, repeat=d))), axis=1)


def kalman_errors(c, ctx, N):
    """Errors of the order-N filter: means and variances (relative to the posterior spread) and log-likelihood."""
    d = c['d']
    f = lambda k: np.array(c[k], dtype=float)
    A, b, L, L0, m0, h, r = [f(k) for k in ('A', 'b', 'L', 'L0', 'm0', 'h', 'r')]
    Z, pz = gauss_atoms(d, N + 1)
    P = dict(A=A, b=b, s0=np.ones(d), s1=np.zeros(d), xi=Z @ L.T, p=pz, h=h, r=r)
    mi, _ = tables(d, N)
    x0 = m0 + Z @ L0.T
    out = execute(dict(c, N=N), ctx, 'kalman', P, x0, pz, mi)
    if not all(np.all(np.isfinite(v)) for v in out):
        # rules in several dimensions have signed weights and can leave the set of moments of distributions: the reference recursion tells
        if not conditioning(dict(c, N=N, mode=c['mode']), P, 'kalman', x0, pz, mi) < 1e-10:
            ctx.inconclusive('ill-conditioned')
    ctx.arr(out[0], (len(c['ys']), len(mi)), 'moments')
    return errors_of(c, out, mi)


def errors_of(c, out, mi):
    d = c['d']
    f = lambda k: np.array(c[k], dtype=float)
    A, b, L, L0, m0, h, r = [f(k) for k in ('A', 'b', 'L', 'L0', 'm0', 'h', 'r')]
    m, V, nell, e = m0, L0 @ L0.T, 0., 0.
    one = [int(np.where(np.all(mi == np.eye(d, dtype=int)[k], axis=1))[0][0]) for k in range(d)]
    two = [int(np.where(np.all(mi == 2 * np.eye(d, dtype=int)[k], axis=1))[0][0]) for k in range(d)]
    for t, y in enumerate(c['ys']):
        m, V = A @ m + b, A @ V @ A.T + L @ L.T
        S = h @ V @ h + r ** 2
        nell += 0.5 * (math.log(2 * math.pi * S) + (y - h @ m) ** 2 / S)
        K = V @ h / S
        m, V = m + K * (y - h @ m), V - np.outer(K, h @ V)
        mean = out[0][t][one] if c['mode'] == 'raw' else out[1][t]
        var = out[0][t][two] - mean ** 2 if c['mode'] == 'raw' else (out[0][t][two] if c['mode'] == 'central' else out[2][t] ** 2)
        sd = np.sqrt(np.diag(V))
        e = max(e, float(np.max(np.abs(mean - m) / sd)), float(np.max(np.abs(var / sd ** 2 - 1))))
    return e, abs(float(out[-1]) - nell)


def reference_converges(c, N):
    """Whether the defining recursion, computed independently, is within the bounds (with signed weights it need not be)."""
    d = c['d']
    f = lambda k: np.array(c[k], dtype=float)
    L, L0, m0 = f('L'), f('L0'), f('m0')
    Z, pz = gauss_atoms(d, N + 1)
    P = dict(A=f('A'), b=f('b'), s0=np.ones(d), s1=np.zeros(d), xi=Z @ L.T, p=pz, h=f('h'), r=f('r'))
    mi, _ = tables(d, N)
    x0 = m0 + Z @ L0.T
    std = np.sqrt(np.diag(L0 @ L0.T))
    cond, mv, lik = FAMILIES['kalman']
    ref = MN.ref_filter(P, (moments_of(x0, pz, mi, m0, std)[0], m0, std), d, N, c['ys'], False, cond=lambda x, cc, s: cond(P, x, mi, cc, s, np),
                        cmv=lambda x: mv(P, x, np), lik=lambda y, x: lik(P, y, x, np))
    out = [np.array([moments_of(x, w, mi, w @ x, 1.)[0] for w, x, _ in ref]), np.array([w @ x for w, x, _ in ref]), ref[-1][2]]
    e0, e1 = errors_of(dict(c, mode='central'), out, mi)
    b0, b1 = kalman_bound(c, N)
    return e0 <= b0 / 3 and e1 <= b1 / 3


def kalman_bound(c, N):
    """Gauss rules of order N integrate the Gaussian likelihood with an error that decays like rho^N, rho the largest fraction of the innovation variance that the state
    explains; the constants are 10-15 times the largest seen over the generated range."""
    f = lambda k: np.array(c[k], dtype=float)
    A, b, L, L0, m, h, r = [f(k) for k in ('A', 'b', 'L', 'L0', 'm0', 'h', 'r')]
    V, rho, z = L0 @ L0.T, 0.03, 0.
    for y in c['ys']:
        m, V = A @ m + b, A @ V @ A.T + L @ L.T
        S = h @ V @ h + r ** 2
        rho, z = max(rho, (h @ V @ h) / S), max(z, abs(y - h @ m) / math.sqrt(S))
        K = V @ h / S
        m, V = m + K * (y - h @ m), V - np.outer(K, h @ V)
    e = rho ** N * math.exp(z ** 2 / 2)
    return 2000 * e + 1e-8, 60 * e + 1e-8


def kalman(c, ctx):
    N = c['N']
    b0, b1 = kalman_bound(c, N)
    ctx.nt(any(v for v in c['h']) and b1 < 0.05)
    ctx.label(c['mode'], f'd={c["d"]} N={N}', f'bound 1e{math.ceil(math.log10(b1))}')
    e0, e1 = kalman_errors(c, ctx, N)
    if (e0 > b0 or e1 > b1) and c['d'] > 1 and not reference_converges(c, N):
        ctx.inconclusive('signed weights delay the convergence')
    ctx.true(e0 <= b0, 'filter moments further from the Kalman solution than the order allows', error=e0, bound=b0)
    ctx.true(e1 <= b1, 'likelihood further from the Kalman solution than the order allows', error=e1, bound=b1)


def with_order(d, Ns):
    return st.tuples(kalman_case(d), st.sampled_from(Ns)).map(lambda t: dict(t[0], N=t[1], one=d == 1))


@PROP.sub('kalman_1d', with_order(1, (3, 5, 8, 10)), quick=150, thorough=3000, shards=2)
def kalman_1d(c, ctx):
    kalman(c, ctx)


@PROP.sub('kalman_2d', with_order(2, (2, 3, 4)), quick=90, thorough=2000, shards=3)
def kalman_2d(c, ctx):
    kalman(c, ctx)


@PROP.sub('kalman_3d', with_order(3, (2, 3)), quick=16, thorough=400, shards=1)
def kalman_3d(c, ctx):
    kalman(c, ctx)
