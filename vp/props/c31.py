"""Every differentiable routine of the library, as a function of its continuous arguments: plain, compiled and batched
evaluations agree, and forward- and reverse-mode derivatives are the actual slope."""
from ..core import *
from .. import oracles as o, modelsg as MG
import jax
import jax.numpy as jnp
from functools import lru_cache
from mfs.one_dim import moments as m1, quadtures as q1, pdf_approximations as pd, filtering as f1
from mfs.multi_dims import moments as mn, quadratures as qn
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
from mfs.classical_filters_smoothers import gfs
from mfs.classical_filters_smoothers.quadratures import SigmaPoints, gaussian_expectation
from mfs.classical_filters_smoothers.brute_force import brute_force_filter
from mfs.classical_filters_smoothers.resampling import continuous_resampling, systematic
from mfs.classical_filters_smoothers.smc import bootstrap_filter
from mfs import utils as U
from mfs.one_dim import ss_models as ss1
from mfs.multi_dims import ss_models as ssn

PROP = Prop('C31', rule='a direction along which the routine changes (non-zero slope)',
            assumptions=['double precision (jax x64) is enabled',
                         'slopes are judged by extrapolated central differences; points where these do not settle (kinks, near-singular matrices) are inconclusive',
                         'spectra with repeated eigenvalues and covariances on the boundary of the cone have no derivative and are not generated'])
REG = {}


def entry(name, group):
    def deco(cls):
        REG[name] = (group, cls)
        return cls

    return deco


def gridded(rng, lo, hi, shape=(), den=16):
    return rng.integers(int(math.ceil(lo * den)), int(math.floor(hi * den)) + 1, size=shape) / den


def disc(rng, n, sym):
    """Nodes and weights of a discrete law with n atoms; symmetric about zero when asked for."""
    x = np.cumsum(gridded(rng, 0.4, 1.2, (n,)))
    x = x - x.mean()
    w = gridded(rng, 1., 4., (n,))
    if sym:
        x, w = (x - x[::-1]) / 2, (w + w[::-1]) / 2
    return x, w / w.sum()


def raw_of(x, w, k):
    return np.array([np.sum(w * x ** j) for j in range(k)])


def spd_of(rng, d, lo=0.5, hi=1.5, off=0.75):
    L = np.tril(gridded(rng, -off, off, (d, d)), -1) + np.diag(gridded(rng, lo, hi, (d,)))
    return L


def sym(a):
    return (a + jnp.swapaxes(a, -1, -2)) / 2


# An entry has make(rng, special) -> dict of arrays, and call(theta) -> pytree of arrays; `special` asks for zero means, symmetric
# laws and states at zero, where powers and square roots written carelessly have no derivative.
def quad_entry(kind, ldl, n):
    @entry(f'quadrature {kind} ldl={ldl} n={n}', 'quadrature')
    class E:
        @staticmethod
        def make(rng, special):
            x, w = disc(rng, n + 3, special)
            t = dict(m=raw_of(x if kind != 'scaled' else x / 1.5, w, 2 * n))
            if kind != 'raw':
                t['mean'] = np.float64(0. if special else gridded(rng, -1, 1))
            if kind == 'scaled':
                t['scale'] = gridded(rng, 0.5, 2)
            return t

        @staticmethod
        def call(t):
            w, x = q1.moment_quadrature(t['m'], *[t[k] for k in ('mean', 'scale') if k in t], sort_nodes=True, ldl=ldl)
            return w, x


for _k, _l, _n in (('raw', False, 3), ('raw', True, 3), ('raw', False, 5), ('central', False, 4), ('scaled', False, 3), ('scaled', True, 4)):
    quad_entry(_k, _l, _n)


@entry('characteristic function', 'quadrature')
class _E:
    @staticmethod
    def make(rng, special):
        x, w = disc(rng, 7, special)
        return dict(m=raw_of(x, w, 6), mean=np.float64(0. if special else gridded(rng, -1, 1)), scale=gridded(rng, 0.5, 2), z=np.float64(0. if special else gridded(rng, -2, 2)))

    @staticmethod
    def call(t):
        c = m1.characteristic_fn(t['z'], t['m'], t['mean'], t['scale'])
        return jnp.real(c), jnp.imag(c)


@entry('Fourier pair', 'quadrature')
class _E:
    @staticmethod
    def make(rng, special):
        return dict(p=gridded(rng, 0.1, 1, (9,)), x=np.linspace(-1., 1., 9) + gridded(rng, -0.06, 0.06, (9,), 256), z=gridded(rng, -2, 2), y=gridded(rng, -2, 2))

    @staticmethod
    def call(t):
        c = m1.characteristic_from_pdf(t['z'], t['p'], t['x'])
        v = pd.inverse_fourier(t['y'], jnp.exp(-t['p']) + 0.j, t['x'])
        return jnp.real(c), jnp.imag(c), jnp.real(v), jnp.imag(v)


@entry('Taylor quadrature', 'quadrature')
class _E:
    @staticmethod
    def make(rng, special):
        x, w = disc(rng, 5, special)
        return dict(m=raw_of(x, w, 6), mean=np.float64(0. if special else gridded(rng, -1, 1)), a=gridded(rng, 0.25, 1))

    @staticmethod
    def call(t):
        return q1.taylor_quadrature(lambda x, a: jnp.sin(a * x) + x ** 2, t['m'], t['mean'], 5, t['a'])


@entry('moment conversions', 'moments')
class _E:
    @staticmethod
    def make(rng, special):
        x, w = disc(rng, 5, special)
        mu = 0. if special else gridded(rng, -1, 1)
        return dict(r=raw_of(x + mu, w, 7), c=raw_of(x - w @ x, w, 7), mean=np.float64(mu), scale=gridded(rng, 0.5, 2))

    @staticmethod
    def call(t):
        return m1.raw_to_central(t['r']), m1.central_to_raw(t['c'], t['mean']), m1.raw_to_scaled(t['r']), m1.raw_to_scaled(t['r'], t['scale']), m1.scaled_to_central(t['c'], t['scale'])


def cumulants(mean):
    """Whether the mean is zero is a decision at the Python level (the input then counts as raw moments), so it is a constant here."""

    @entry(f'cumulants mean={mean}', 'moments')
    class E:
        @staticmethod
        def make(rng, special):
            x, w = disc(rng, 5, special)
            x = x - w @ x
            return dict(s=raw_of(x / math.sqrt(np.sum(w * x ** 2)), w, 7), scale=gridded(rng, 0.5, 2))

        @staticmethod
        def call(t):
            return m1.sms_to_cumulants(t['s'], mean, t['scale'])


for _m in (0., -0.75):
    cumulants(_m)


@entry('Normal moments', 'moments')
class _E:
    @staticmethod
    def make(rng, special):
        return dict(m=np.float64(0. if special else gridded(rng, -2, 2)), v=gridded(rng, 0.5, 2), mean=np.zeros(2) if special else gridded(rng, -1, 1, (2,)), L=spd_of(rng, 2))

    @staticmethod
    def call(t):
        S = t['L'] @ t['L'].T
        mi = [(2, 0), (1, 1), (2, 1), (1, 3), (2, 2), (0, 4), (0, 0)]
        return (jnp.stack([m1.raw_moment_of_normal(t['m'], t['v'], p) + 0. * t['m'] for p in range(7)]), jnp.stack([m1.central_moment_of_normal(t['v'], p) + 0. * t['v'] for p in range(7)]),
                jnp.stack([mn.raw_moments_mvn_kan(t['mean'], S, n) + 0. for n in mi]), jnp.stack([mn.central_moments_mvn_kan(S, n) + 0. * S[0, 0] for n in mi]),
                jnp.stack([mn.raw_moments_mvn_mgf(t['mean'], S, n) for n in mi[:5]]))


def sde1(kind):
    @entry(f'1D conditional moments {kind}', 'moments')
    class E:
        @staticmethod
        def make(rng, special):
            x = gridded(rng, -1.5, 1.5, (3,))
            if special:
                x[1] = 0.
            return dict(x=x, a=gridded(rng, 0.25, 1), b=gridded(rng, 0.5, 1.5), c=gridded(rng, 0.25, 1), dt=gridded(rng, 0.05, 0.5, den=64), mean=np.float64(0. if special else gridded(rng, -1, 1)),
                        scale=gridded(rng, 0.5, 2))

        @staticmethod
        def call(t):
            f, g = (lambda x: -t['a'] * x + jnp.sin(x)), (lambda x: t['b'] + t['c'] * jnp.cos(x) / 2)
            r = {'tme': lambda: m1.sde_cond_moments_tme(f, lambda x: g(x)[:, None], t['dt'], 2),
                 'tme normal': lambda: m1.sde_cond_moments_tme_normal(f, lambda x: g(x)[:, None], t['dt'], 2, 3),
                 'euler': lambda: m1.sde_cond_moments_euler(f, g, t['dt'], 3)}[kind]()
            n = jnp.arange(6)
            return r[0](t['x'], n), r[1](t['x'], n, t['mean']), r[2](t['x'], n, t['mean'], t['scale']), r[3](t['x']), r[4](t['x'])


for _k in ('tme', 'tme normal', 'euler'):
    sde1(_k)


def sden(kind):
    @entry(f'ND conditional moments {kind}', 'nd')
    class E:
        @staticmethod
        def make(rng, special):
            x = gridded(rng, -1.5, 1.5, (2, 2))
            if special:
                x[0, 1] = 0.
            return dict(x=x, A=gridded(rng, -1, 1, (2, 2)), L=spd_of(rng, 2), dt=gridded(rng, 0.05, 0.5, den=64), mean=np.zeros(2) if special else gridded(rng, -1, 1, (2,)),
                        scale=gridded(rng, 0.5, 2, (2,)))

        @staticmethod
        def call(t):
            f, g = (lambda x: t['A'] @ jnp.sin(x)), (lambda x: t['L'] * (1 + 0.25 * jnp.cos(x))[:, None])
            mi = np.array([(0, 0), (1, 0), (1, 1), (0, 2)]) if kind == 'tme' else np.array(o.multi_indices(2, 2 if kind == 'tme normal' else 3))  # compiling is slow
            r = {'tme': lambda: mn.sde_cond_moments_tme(f, g, t['dt'], 1), 'tme normal': lambda: mn.sde_cond_moments_tme_normal(f, g, t['dt'], 2, mi),
                 'euler': lambda: mn.sde_cond_moments_euler_maruyama(f, g, t['dt'], mi)}[kind]()
            n = mi if kind == 'tme' else jnp.arange(len(mi))
            return r[0](t['x'], n), r[1](t['x'], n, t['mean']), r[2](t['x'], n, t['mean'], t['scale']), r[3](t['x']), r[4](t['x'])


for _k in ('tme', 'tme normal', 'euler'):
    sden(_k)


def quadn(kind, ldl):
    @entry(f'ND quadrature {kind} ldl={ldl}', 'nd')
    class E:
        @staticmethod
        def make(rng, special):
            x = rng.normal(size=(9, 2)) * [1., 1.3] + 0.3
            w = rng.dirichlet(3 * np.ones(9))
            mi = np.array(o.multi_indices(2, 3))
            t = dict(m=np.array([np.sum(w * np.prod(x ** n, axis=1)) for n in mi]))
            if kind != 'raw':
                t['mean'] = gridded(rng, -1, 1, (2,))
            if kind == 'scaled':
                t['scale'] = gridded(rng, 0.5, 2, (2,))
            return t

        @staticmethod
        def call(t):
            w, x = qn.moment_quadrature_nd(t['m'], gram_and_hankel_indices_graded_lexico(2, 2), **{k: t[k] for k in ('mean', 'scale') if k in t}, ldl=ldl)
            return jnp.sum(w), w @ x, jnp.einsum('i,ij,ik->jk', w, x, x), jnp.dot(w, jnp.cos(x[:, 0] + x[:, 1] / 2))


for _k, _l in (('raw', False), ('central', True), ('scaled', False)):
    quadn(_k, _l)


@entry('Gaussian sum 1D', 'laws')
class _E:
    @staticmethod
    def make(rng, special):
        m = gridded(rng, -1, 1, (3,))
        if special:
            m = np.array([-1., 0., 1.])
        return dict(m=m, v=gridded(rng, 0.25, 1.5, (3,)), w=np.ones(3) / 3 if special else rng.dirichlet(4 * np.ones(3)), x=gridded(rng, -2, 2, (4,)))

    @staticmethod
    def call(t):
        g = U.GaussianSum1D.new(t['m'], t['v'], t['w'] / jnp.sum(t['w']), 3)
        return g.mean, g.variance, g.rms, g.cms, g.scms, g.pdf(t['x'])


@entry('Gaussian sum ND', 'laws')
class _E:
    @staticmethod
    def make(rng, special):
        m = gridded(rng, -1, 1, (2, 2))
        if special:
            m = np.array([[1., 0.5], [-1., -0.5]])
        return dict(m=m, L=np.stack([spd_of(rng, 2), spd_of(rng, 2)]), w=np.ones(2) / 2 if special else rng.dirichlet(4 * np.ones(2)), x=gridded(rng, -2, 2, (2,)))

    @staticmethod
    def call(t):
        # the moments that GaussianSumND.new stores are computed by numpy, outside the reach of jax
        g = U.GaussianSumND(d=2, means=t['m'], covs=t['L'] @ jnp.swapaxes(t['L'], 1, 2), weights=t['w'] / jnp.sum(t['w']), mean=None, cov=None, rms=None, cms=None)
        return g.pdf(t['x']), g.logpdf(t['x'])


@lru_cache(maxsize=None)
def bundled():
    with jax.ensure_compile_time_eval():  # the stored moments of their initial laws are computed by numpy
        return ss1.benes_bernoulli(), ss1.well_poisson(1.), ssn.prey_predator(np.array(o.multi_indices(2, 1)))


@entry('bundled models', 'laws')
class _E:
    @staticmethod
    def make(rng, special):
        return dict(x=np.zeros(2) if special else gridded(rng, -1.5, 1.5, (2,)), p=gridded(rng, 0.5, 3))

    @staticmethod
    def call(t):
        x, p = t['x'], t['p']
        b, w, v = bundled()
        f, g = ssn.satellite_orbital_stability(p, p / 2, 1.)
        return (b[4](x), b[6](x), jnp.stack([b[7](y, x) for y in (0, 1)]), w[4](x, p), w[6](x, p), jnp.stack([w[7](y, x, p) for y in (0, 1, 4)]),
                v[4](x), v[5](x), v[6](x), jnp.stack([v[7](y, x) for y in (0, 1)]), f(x), g(x))


@entry('series densities', 'laws')
class _E:
    @staticmethod
    def make(rng, special):
        x, w = disc(rng, 5, special)
        x = x / np.max(np.abs(x)) * 0.9
        return dict(r=raw_of(x, w, 6), a=np.float64(-1. if special else -1.25), b=np.float64(1.), x=np.array([-0.5, 0., 0.75]),
                    k=np.concatenate([[0. if special else gridded(rng, -1, 1)], [gridded(rng, 0.5, 2)], gridded(rng, -0.25, 0.25, (3,))]))

    @staticmethod
    def call(t):
        return pd.legendre_poly_expansion(t['r'], t['a'], t['b'])(t['x']), pd.gram_charlier(t['k'])(t['x'])


@entry('cumulant function and saddle-point density', 'laws')
class _E:
    @staticmethod
    def make(rng, special):
        x, w = disc(rng, 6, special)
        x = x - w @ x
        return dict(s=raw_of(x / math.sqrt(np.sum(w * x ** 2)), w, 6), mean=np.float64(0. if special else gridded(rng, -1, 1)), scale=gridded(rng, 0.5, 2), z=np.float64(gridded(rng, -0.5, 0.5)))

    @staticmethod
    def call(t):
        return pd.truncated_cumulant_generating_function(t['z'], t['s'], t['mean'], t['scale']), pd.truncated_cumulant_generating_function(t['z'], t['s'])


@entry('linear algebra', 'utils')
class _E:
    @staticmethod
    def make(rng, special):
        L = np.tril(gridded(rng, -1, 1, (3, 3)), -1) + np.eye(3)
        d = gridded(rng, 0.5, 2, (3,)) * (np.array([1., -1., 1.]) if special else 1.)
        return dict(A=(L * d) @ L.T)

    @staticmethod
    def call(t):
        return U.ldl(sym(t['A'])), U.ldl_chol(sym(t['A']), 0.125), U.ldl_chol(sym(t['A']))


@entry('Lanczos', 'utils')
class _E:
    @staticmethod
    def make(rng, special):
        Q = np.linalg.qr(rng.normal(size=(4, 4)))[0]
        v = rng.normal(size=4)
        return dict(A=(Q * np.array([-1., 0.5, 1.5, 3.])) @ Q.T, v=v / np.linalg.norm(v))

    @staticmethod
    def call(t):
        v = t['v'] / jnp.linalg.norm(t['v'])
        V, a, b = U.lanczos(sym(t['A']), v, 3)
        u, th = U.lanczos_ritz(sym(t['A']), t['v'], 3)
        return V, a, b, th, u @ jnp.sin(th)


@entry('LTI discretisation', 'utils')
class _E:
    @staticmethod
    def make(rng, special):
        return dict(A=np.zeros((2, 2)) if special else gridded(rng, -1, 1, (2, 2)), B=gridded(rng, -1, 1, (2, 3)), dt=gridded(rng, 0.1, 1))

    @staticmethod
    def call(t):
        return U.discretise_lti_sde(t['A'], t['B'], t['dt'])


@entry('special functions', 'utils')
class _E:
    @staticmethod
    def make(rng, special):
        return dict(x=np.zeros(6) if special else gridded(rng, -2, 2, (6,)), p=gridded(rng, 0.5, 6, (3,)), q=gridded(rng, 0.25, 0.5, (3,)))

    @staticmethod
    def call(t):
        x = t['x']
        return (jnp.stack([U.partial_bell(5, k, x) + 0. * x[0] for k in range(1, 6)]), U.complete_bell(5, x), jnp.stack([U.hermite_probabilist(n, x[0]) + 0. * x[0] for n in range(6)]), U.gamma(t['p']),
                U.factorial(t['p']), U.binom(t['p'], t['q']), U.vmap_list_of_funcs([lambda u: jnp.sum(u ** 2), lambda u: jnp.sin(u[0])])(x))


@entry('Cramer-Rao', 'utils')
class _E:
    @staticmethod
    def make(rng, special):
        return dict(x=gridded(rng, -1, 1, (3, 2, 2)), y=gridded(rng, -1, 1, (2, 2, 1)), J=spd_of(rng, 2), a=gridded(rng, 0.5, 1))

    @staticmethod
    def call(t):
        lt = lambda x, s: -jnp.sum((x - t['a'] * jnp.sin(s)) ** 2) / 2 - jnp.sum(x ** 4) / 24
        ll = lambda y, x: -jnp.sum((y - x[0] - x[1] ** 2 / 4) ** 2) / 2
        return U.posterior_cramer_rao(t['x'], t['y'], t['J'] @ t['J'].T, lt, ll)


def path(diagonal):
    """For a given key a path is a smooth function of the initial state, the step and the model."""

    @entry(f'simulated path diagonal={diagonal}', 'utils')
    class E:
        @staticmethod
        def make(rng, special):
            return dict(x=np.zeros(2) if special else gridded(rng, -1, 1, (2,)), dt=gridded(rng, 0.1, 0.5), A=gridded(rng, -1, 1, (2, 2)), L=spd_of(rng, 2))

        @staticmethod
        def call(t):
            cov = jnp.diag(jnp.diagonal(t['L']) ** 2) if diagonal else t['L'] @ t['L'].T
            f = lambda x, h: (x + h * t['A'] @ jnp.sin(x), h * cov)
            return U.simulate_sde(f, t['x'], t['dt'], 3, jax.random.PRNGKey(7), diagonal_cov=diagonal, integration_steps=2)


for _k in (False, True):
    path(_k)


# ------------------------------------------------------------------------------------------------ Gaussian smoothers, expectations
def gauss_theta(rng, special, T=3):
    d = 2
    m = dict(A=gridded(rng, -1, 1, (d, d)), b=gridded(rng, -1, 1, (d,)), C=gridded(rng, -1, 1, (d, d)), V=gridded(rng, -1, 1, (d, d)), SL=spd_of(rng, d), s1=gridded(rng, 0, 1))
    if special:
        m['b'] = np.zeros(d)
    return dict(m, mf=np.zeros((T, d)) if special else gridded(rng, -1, 1, (T, d)), Lf=np.stack([spd_of(rng, d) for _ in range(T)]), dt=gridded(rng, 0.05, 0.3, den=64))


def smoother(kind):
    @entry(f'smoother {kind}', 'gaussian')
    class E:
        make = staticmethod(gauss_theta)

        @staticmethod
        def call(t):
            P = t['Lf'] @ jnp.swapaxes(t['Lf'], 1, 2)
            st_, dr, di = (lambda x, h: MG.state(t, x, h, jnp)), (lambda x: MG.drift(t, x, jnp)), (lambda x: t['SL'] * (1 + t['s1'] * jnp.sin(x) / 4)[:, None])
            s = SigmaPoints.gauss_hermite(2, 3)
            if kind == 'rts':
                return gfs.rts(jnp.eye(2) + t['dt'] * t['A'], t['dt'] * t['SL'] @ t['SL'].T, t['mf'], P)
            if kind == 'eks':
                return gfs.eks(st_, t['mf'], P, t['dt'])
            if kind == 'sgp':
                return gfs.sgp_smoother(st_, s, t['mf'], P, t['dt'])
            if kind == 'cd_eks':
                return gfs.cd_eks(dr, di, t['mf'], P, t['dt'] / 8)
            return gfs.cd_sgp_smoother(dr, t['SL'], s, t['mf'], P, t['dt'] / 8)


for _k in ('rts', 'eks', 'sgp', 'cd_eks', 'cd_sgp'):
    smoother(_k)


@entry('Gaussian expectations', 'gaussian')
class _E:
    @staticmethod
    def make(rng, special):
        return dict(m=np.zeros((3, 2)) if special else gridded(rng, -1, 1, (3, 2)), L=np.stack([spd_of(rng, 2) for _ in range(3)]), a=gridded(rng, 0.25, 1))

    @staticmethod
    def call(t):
        f = lambda x: jnp.stack([jnp.sin(t['a'] * x[..., 0]) * x[..., 1], x[..., 0] ** 2], axis=-1)
        s = SigmaPoints.cubature(2)
        chi = s.gen_sigma_points(t['m'][0], t['L'][0])
        return gaussian_expectation(t['m'], t['L'], f, d=2, order=4), s.expectation(f(chi)), s.expectation_from_nodes(f, chi)


# ------------------------------------------------------------------------------------------------ particle and grid methods
@entry('continuous resampling', 'particles')
class _E:
    """For a given key the output is a continuous, piecewise smooth function of samples and weights."""

    @staticmethod
    def make(rng, special):
        w = gridded(rng, 1, 4, (8,))
        return dict(x=rng.permutation(np.cumsum(gridded(rng, 0.25, 1, (8,)))), w=w / w.sum())

    @staticmethod
    def call(t):
        return continuous_resampling(t['x'], t['w'] / jnp.sum(t['w']), 6, jax.random.PRNGKey(3))


@entry('bootstrap filter with continuous resampling', 'particles')
class _E:
    @staticmethod
    def make(rng, special):
        return dict(a=gridded(rng, 0.25, 1), s=gridded(rng, 0.5, 1.5), r=gridded(rng, 0.75, 2), m=np.float64(0. if special else gridded(rng, -1, 1)), ys=gridded(rng, -2, 2, (3,)))

    @staticmethod
    def call(t):
        _, n = bootstrap_filter(lambda x, k: t['a'] * x + t['s'] * jax.random.normal(k, x.shape), lambda y, x: jnp.exp(-(y - x) ** 2 / 2 / t['r']) / jnp.sqrt(t['r']), t['ys'],
                                lambda k, n: t['m'] + jax.random.normal(k, (n,)), jax.random.PRNGKey(11), 40, systematic, conti_resampling=True)
        return n


def brute(method):
    @entry(f'brute force {method}', 'particles')
    class E:
        @staticmethod
        def make(rng, special):
            return dict(a=gridded(rng, 0.25, 1), b=gridded(rng, 0.75, 1.25), m=np.float64(0. if special else gridded(rng, -0.5, 0.5)), r=gridded(rng, 0.75, 2), ys=gridded(rng, -1, 1, (2,)),
                        dt=gridded(rng, 0.02, 0.05, den=256))

        @staticmethod
        def call(t):
            xs = jnp.linspace(-4., 4., 41)
            p0 = jnp.exp(-(xs - t['m']) ** 2)
            return brute_force_filter(lambda x: -t['a'] * x + jnp.sin(x), lambda x: t['b'] + 0. * x if method == 'kolmogorov' or 'tme' not in method else t['b'] * jnp.ones((1, 1)),
                                      lambda y, x: jnp.exp(-(y - x) ** 2 / 2 / t['r']), p0 / jnp.trapz(p0, xs), xs, t['ys'], t['dt'], 2, method)


for _k in ('kolmogorov', 'chapman-euler'):
    brute(_k)


# ------------------------------------------------------------------------------------------------ the check
KINKS = ('continuous resampling', 'bootstrap filter with continuous resampling')  # piecewise smooth in their inputs
FRAGILE = ('smoother cd_eks', 'smoother cd_sgp')  # a backward integration that C19 judges


def flat(tree):
    return jnp.concatenate([jnp.ravel(v) for v in jax.tree_util.tree_leaves(tree)])


@lru_cache(maxsize=None)
def programs(name):
    f = REG[name][1].call
    g = lambda t: flat(f(t))
    return g, jax.jit(g), jax.jit(jax.vmap(g)), jax.jit(lambda t, u: jax.jvp(g, (t,), (u,))[1]), jax.jit(lambda t, v: jax.vjp(g, t)[1](v)[0])


def check(c, ctx):
    name = c['name']
    rng = np.random.default_rng(c['seed'])
    E = REG[name][1]
    t, t2 = ({k: np.asarray(v, dtype=float) for k, v in E.make(rng, s).items()} for s in (c['special'], False))
    u = {k: rng.integers(-8, 9, size=np.shape(v)) / 8 for k, v in t.items()}
    if not any(np.any(v) for v in u.values()):
        u = {k: np.ones_like(v) for k, v in u.items()}
    J = lambda d: {k: jnp.asarray(v) for k, v in d.items()}
    shift = lambda h: J({k: t[k] + h * u[k] for k in t})
    g, gj, gv, jv, vj = programs(name)
    ctx.label(name, 'special point' if c['special'] else 'generic point')
    y = np.asarray(ctx.call(name, gj, J(t)), dtype=float)
    y2 = np.asarray(ctx.call(name, gj, J(t2)), dtype=float)
    if name in FRAGILE and not (np.all(np.isfinite(y)) and np.all(np.isfinite(y2))):
        ctx.inconclusive('the recursion leaves the positive definite matrices')
    ctx.true(np.all(np.isfinite(y)), f'{name}: value is not finite', value=y)
    kinks = name in KINKS
    h = 2. ** -17 if kinks else 2. ** -11
    fd = lambda h: (np.asarray(gj(shift(h))) - np.asarray(gj(shift(-h)))) / (2 * h)
    D = [fd(h), fd(h / 2), fd(h / 4)]
    if not all(np.all(np.isfinite(v)) for v in D):
        ctx.inconclusive('differences are not finite')
    R1, R = (4 * D[1] - D[0]) / 3, (4 * D[2] - D[1]) / 3
    scale = 1 + np.abs(R) + np.max(np.abs(R))
    unsettled = np.abs(R - R1) + np.abs(D[2] - R) * 1e-3
    if kinks:  # plain differences; a bend between the points shows as a gap between the one-sided slopes or between steps
        gap = np.abs(np.asarray(gj(shift(h / 4))) + np.asarray(gj(shift(-h / 4))) - 2 * y) / (h / 4)
        R, unsettled = D[2], np.abs(D[0] - D[1]) + np.abs(D[1] - D[2]) + gap
    ctx.nt(np.max(np.abs(R)) > 1e-6)
    sz = 1 + np.max(np.abs(y))
    # how far a perturbation of an input in the last digits moves the outputs
    amp = 1 + np.max(np.abs(R)) + np.max(np.abs(D[2]))
    tol = 1e-11 * (sz + amp)
    if c['plain']:
        ctx.label('plain')
        ctx.close(ctx.call(name, g, J(t)), y, f'{name}: compiled and plain evaluation', tol=tol)
    b = ctx.arr(ctx.call(name, gv, J({k: np.stack([t[k], t2[k]]) for k in t})), (2,) + y.shape, 'batched value')
    ctx.close(b[0], y, f'{name}: batched and single evaluation', tol=tol)
    ctx.close(b[1], y2, f'{name}: batched and single evaluation', tol=1e-11 * (1 + np.max(np.abs(b[1]))) * 10 + tol)
    d = np.asarray(ctx.call(name, jv, J(t), J(u)))
    if np.any(unsettled > 1e-3 * scale):
        ctx.inconclusive('differences do not settle')
    ctx.true(np.all(np.isfinite(d)), f'{name}: derivative is not finite where the routine is smooth', derivative=d, slope=R)
    ctx.close(d, R, f'{name}: derivative and slope', tol=1e-6 * scale + 5 * unsettled + 1e-10 * sz + 4e-16 * sz / h)
    v = rng.integers(-4, 5, size=y.shape) / 4
    r = ctx.call(name, vj, J(t), jnp.asarray(v))
    ctx.true(all(np.all(np.isfinite(np.asarray(a))) for a in r.values()), f'{name}: reverse derivative is not finite where the routine is smooth')
    lhs, rhs = float(v @ d), float(sum(np.sum(np.asarray(r[k]) * u[k]) for k in t))
    ctx.close(rhs, lhs, f'{name}: forward and reverse derivatives', tol=1e-9 * (1 + np.sum(np.abs(v) * np.abs(d)) + sum(np.sum(np.abs(np.asarray(r[k]) * u[k])) for k in t)))


def cases(group):
    names = sorted(n for n in REG if REG[n][0] == group)
    return names, st.fixed_dictionaries(dict(name=st.sampled_from(names), seed=st.integers(0, 2 ** 31 - 1), special=st.integers(0, 2).map(lambda k: k == 2), plain=st.integers(0, 5).map(lambda k: k == 5)))


for _g in sorted({g for g, _ in REG.values()}):
    _names, _s = cases(_g)
    PROP.sub(_g, _s, quick=40 * len(_names), thorough=400 * len(_names), shards=2,
             pinned=[dict(name=n, seed=1, special=s, plain=True) for n in _names for s in (True, False)])(check)
