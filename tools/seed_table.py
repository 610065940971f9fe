PRE = '''import os, sys, math
sys.path.insert(0, os.getcwd())
import numpy as np
import jax, jax.numpy as jnp
jax.config.update('jax_enable_x64', True)


def close(a, b, rtol=1e-7, atol=1e-12, what=''):
    a, b = np.asarray(a), np.asarray(b)
    ok = a.shape == b.shape and np.all(np.isfinite(a)) and np.allclose(a, b, rtol=rtol, atol=atol)
    if not ok:
        print('MISMATCH', what, a, b)
        sys.exit(1)


'''
Q1 = 'mfs/one_dim/quadtures.py'
F1 = 'mfs/one_dim/filtering.py'
M1 = 'mfs/one_dim/moments.py'
PD = 'mfs/one_dim/pdf_approximations.py'
S1 = 'mfs/one_dim/ss_models.py'
QN = 'mfs/multi_dims/quadratures.py'
FN = 'mfs/multi_dims/filtering.py'
MN = 'mfs/multi_dims/moments.py'
MI = 'mfs/multi_dims/multi_indices.py'
SN = 'mfs/multi_dims/ss_models.py'
G = 'mfs/classical_filters_smoothers/gfs.py'
CQ = 'mfs/classical_filters_smoothers/quadratures.py'
RS = 'mfs/classical_filters_smoothers/resampling.py'
SM = 'mfs/classical_filters_smoothers/smc.py'
BF = 'mfs/classical_filters_smoothers/brute_force.py'
U = 'mfs/utils.py'

SEEDS = []


def S(id, prop, edits, needs, breaks, demo, nth=None):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, nth=nth or {}))


S('b01-quad-clip', 'C01',
  [(Q1, '''    return eigen_vectors[0, :] ** 2, scale * eigen_vals + mean


def make_derivatives''', '''    # Guard against run-away nodes.
    eigen_vals = jnp.clip(eigen_vals, -1e3, 1e3)
    return eigen_vectors[0, :] ** 2, scale * eigen_vals + mean


def make_derivatives''')],
  'raw or central moments of a distribution with atoms further than 1000 from the origin (unscaled)',
  'nodes beyond 1000 are clipped, the rule no longer reproduces the moments',
  '''
from mfs.one_dim.quadtures import moment_quadrature
x, w = np.array([-500., 200., 2500.]), np.array([0.3, 0.5, 0.2])
ms = jnp.array([np.sum(w * x ** k) for k in range(6)])
ww, xx = moment_quadrature(ms, sort_nodes=True)
close(xx, x, 1e-4); close(ww, w, 1e-4)
''')

S('b01-quad-jitter', 'C01',
  [(Q1, 'R = ldl_chol(G) if ldl else jax.lax.linalg.cholesky(G)',
    'R = ldl_chol(G) if ldl else jax.lax.linalg.cholesky(G + 1e-13 * jnp.eye(n))')],
  'central/raw moments of a distribution with a small spread (entries of the moment matrix comparable with 1e-13)',
  'the Cholesky route returns a rule of a different (inflated) distribution, and differs from the LDL route',
  '''
from mfs.one_dim.quadtures import moment_quadrature
x, w = np.array([-1e-5, 1e-5]), np.array([0.5, 0.5])
ms = jnp.array([np.sum(w * x ** k) for k in range(4)])
ww, xx = moment_quadrature(ms, sort_nodes=True)
close(xx, x, 1e-6); close(ww, w, 1e-6)
''')

S('b02-cf-riemann', 'C02',
  [(M1, 'return jnp.trapz(jnp.exp(1.j * z * xs) * ps, xs)',
    'dx = xs[1] - xs[0]\n    return jnp.sum(jnp.exp(1.j * z * xs) * ps) * dx')],
  'a non-uniform grid, or a density that does not vanish at the ends of the grid',
  'the characteristic function of a tabulated density is no longer the trapezoidal transform',
  '''
from mfs.one_dim.moments import characteristic_from_pdf
t = np.linspace(-1, 1, 2001); xs = 8 * np.sinh(2 * t) / np.sinh(2.)
ps = np.exp(-xs ** 2 / 2) / np.sqrt(2 * np.pi)
close(characteristic_from_pdf(0.7, jnp.array(ps), jnp.array(xs)), np.exp(-0.7 ** 2 / 2) + 0j, 1e-4)
''')

S('b03-floor-likelihood', 'C03',
  [(F1, 'nell -= jnp.log(pdf_y)\n        return (scms, mean, scale, nell), (scms, mean, scale)',
    'nell -= jnp.log(jnp.maximum(pdf_y, 1e-12))\n        return (scms, mean, scale, nell), (scms, mean, scale)')],
  'a measurement whose predictive density is below 1e-12 (an outlier, or a density of a vector measurement)',
  'the negative log-likelihood of the scaled 1D filter saturates at outliers',
  '''
from mfs.one_dim.filtering import moment_filter_scms, moment_filter_rms
from mfs.one_dim.moments import sde_cond_moments_euler
from mfs.utils import GaussianSum1D
N = 4
gs = GaussianSum1D.new(jnp.array([0.]), jnp.array([1.]), jnp.array([1.]), N)
f = sde_cond_moments_euler(lambda x: -x, lambda x: 0.5 + 0. * x, 0.1, N)
pdf = lambda y, x: jnp.exp(-0.5 * (y - x) ** 2 / 0.25) / jnp.sqrt(2 * jnp.pi * 0.25)
f0 = lambda x: (-x + 0. , x)
def mv(x):
    m, v = f[4](x)
    return m, v
scm = f[2]
ys = jnp.array([0.1, 8.])
# replay of the recursion with the quadrature only
from mfs.one_dim.quadtures import moment_quadrature
out = moment_filter_scms(scm, mv, pdf, gs.scms, gs.mean, jnp.sqrt(gs.variance), ys)
nell = 0.; sc, m, s = gs.scms, gs.mean, jnp.sqrt(gs.variance)
for y in ys:
    w, x = moment_quadrature(sc, m, s)
    a, b = mv(x); m, s = jnp.dot(a, w), jnp.sqrt(jnp.dot(b, w))
    sc = scm(x, jnp.arange(2 * N), m, s).T @ w
    w, x = moment_quadrature(sc, m, s)
    l = pdf(y, x); p = jnp.dot(l, w); nell -= jnp.log(p)
    m = jnp.dot(l * x, w) / p; s = jnp.sqrt(jnp.dot(l * (x - m) ** 2, w) / p)
    sc = jnp.array([jnp.dot(l * ((x - m) / s) ** k, w) / p for k in range(2 * N)])
close(out[-1], nell, 1e-6)
''')

S('b04-scale-cancel', 'C04',
  [(F1, '''        scale = jnp.sqrt(
            jnp.dot(unnormalised_posterior_moment_integrand(y, nodes, jnp.array([2]), mean, 1.)[:, 0], weights) / pdf_y)''',
    '''        second = jnp.dot(unnormalised_posterior_moment_integrand(y, nodes, jnp.array([2]), 0., 1.)[:, 0], weights) / pdf_y
        scale = jnp.sqrt(second - mean ** 2)''')],
  'a state whose mean is large compared with its spread (catastrophic cancellation of second moment minus squared mean)',
  'the scaled filter loses its accuracy when the state space is translated',
  '''
from mfs.one_dim.filtering import moment_filter_scms
N = 3
def run(c):
    mv = lambda x: (0.9 * (x - c) + c, (0.9 * (x - c)) ** 2 * 0. + 0.81 * (x - c) ** 2 + 0.1)
    def scm(x, n, m, s):
        mu, v = 0.9 * (x - c) + c - m, 0.1
        ms = jnp.stack([jnp.ones_like(x), mu, mu ** 2 + v, mu ** 3 + 3 * mu * v,
                        mu ** 4 + 6 * mu ** 2 * v + 3 * v ** 2, mu ** 5 + 10 * mu ** 3 * v + 15 * mu * v ** 2], 1)
        return ms / s ** n
    pdf = lambda y, x: jnp.exp(-0.5 * (y - x) ** 2)
    ys = c + jnp.array([0.3, -0.2, 0.5])
    mv2 = lambda x: (mv(x)[0], mv(x)[1])
    return moment_filter_scms(scm, mv2, pdf, jnp.array([1., 0., 1., 0., 3., 0.]), c, 1., ys)
a, b = run(0.), run(1e6)
close(b[2], a[2], 1e-6); close(b[0], a[0], 1e-5, 1e-6)
''')

S('b05-stopgrad', 'C05',
  [(Q1, """    eigen_vectors, eigen_vals = jax.lax.linalg.eigh(K, sort_eigenvalues=sort_nodes)

    return eigen_vectors[0, :] ** 2, scale * eigen_vals + mean


def make""", """    eigen_vectors, eigen_vals = jax.lax.linalg.eigh(K, sort_eigenvalues=sort_nodes)
    if ldl:
        # Derivatives of eigenvectors blow up for close eigenvalues.
        eigen_vectors = jax.lax.stop_gradient(eigen_vectors)

    return eigen_vectors[0, :] ** 2, scale * eigen_vals + mean


def make""")],
  'differentiating the likelihood of a 1D filter run with the LDL option with respect to a parameter',
  'the derivative of the likelihood is not its slope',
  """
from mfs.one_dim.filtering import moment_filter_scms
N = 2
def nell(a):
    mv = lambda x: (a * x, (a * x - 0.) ** 2 * 0. + 0.1 + a ** 2)
    def scm(x, n, m, s):
        mu, v = a * x - m, 0.1
        ms = jnp.stack([jnp.ones_like(x), mu, mu ** 2 + v, mu ** 3 + 3 * mu * v], 1)
        return ms / s ** n
    pdf = lambda y, x: jnp.exp(-0.5 * (y - jnp.sin(x)) ** 2)
    return moment_filter_scms(scm, mv, pdf, jnp.array([1., 0., 1., 0.2]), 0.1, 1., jnp.array([0.3, -0.2, 0.5]), stable=True)[-1]
h = 1e-5
close(jax.grad(nell)(0.8), (nell(0.8 + h) - nell(0.8 - h)) / 2 / h, 1e-5)
""")

S('b05-ekf-grad', 'C05',
  [(G, """        H = jax.jacrev(measurement_cond_m_cov)(mp)[0]
    pred_y_m""", """        H = jax.jacrev(measurement_cond_m_cov)(mp)[0]
    H = jax.lax.stop_gradient(H)  # The linearisation is a constant of the update.
    pred_y_m""")],
  'differentiating the likelihood of an extended filter with a nonlinear measurement with respect to a parameter',
  'the derivative of the likelihood is not its slope',
  """
from mfs.classical_filters_smoothers.gfs import ekf
def nell(a):
    return ekf(lambda x, dt: (a * x, 0.3 * jnp.eye(1)), lambda x: (jnp.sin(a * x), 0.2 * jnp.eye(1)), jnp.array([0.4]), jnp.eye(1), 0.1, jnp.array([[0.5], [-0.1]]))[2][-1]
h = 1e-5
close(jax.grad(nell)(0.8), (nell(0.8 + h) - nell(0.8 - h)) / 2 / h, 1e-5)
""")

S('b06-floor-norm', 'C06',
  [(F1, """        pdf_y = jnp.dot(jax.vmap(measurement_cond_pdf, in_axes=[None, 0])(y, nodes), weights)
        rms =""", """        pdf_y = jnp.dot(jax.vmap(measurement_cond_pdf, in_axes=[None, 0])(y, nodes), weights)
        pdf_y = jnp.maximum(pdf_y, 1e-8)
        rms =""")],
  'a measurement whose predictive density is below 1e-8 (an outlier, or a density in small units)',
  'the filtering moments are not normalised, the zeroth moment is not one and the likelihood is wrong',
  """
from mfs.one_dim.filtering import moment_filter_rms
x, w = np.array([-1., 0.5]), np.array([0.4, 0.6])
rms = jnp.array([np.sum(w * x ** k) for k in range(4)])
l = np.array([2e-9, 5e-9])
pdf = lambda y, u: 1e-9 * (2. + 3. * (u + 1.) / 1.5)
out, nell = moment_filter_rms(lambda u, n: u[:, None] ** n, pdf, rms, jnp.zeros(1))
close(nell, -np.log(w @ l), 1e-9)
p = w * l / (w @ l)
close(out[0], [np.sum(p * x ** k) for k in range(4)], 1e-9)
""")

S('b07-mean-order', 'C07',
  [(M1, '''        return jnp.squeeze(tme.expectation(lambda u: u, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))''',
    '''        return jnp.squeeze(tme.expectation(lambda u: u, jnp.atleast_1d(x), dt, drift, dispersion,
                                           order=min(tme_order, 2)))''')],
  'the plain TME construction with order 3 or more',
  'the conditional mean disagrees with the first conditional moment',
  '''
from mfs.one_dim.moments import sde_cond_moments_tme
f = sde_cond_moments_tme(lambda x: jnp.tanh(2 * x) - x ** 3, lambda x: 1. + 0.1 * x, 0.2, 3)
x = jnp.array([0.3, -0.8])
close(f[3](x), f[0](x, jnp.arange(4))[:, 1], 1e-9)
''', nth={M1: 0})

S('b08-pascal-int', 'C08',
  [(M1, "return jnp.asarray(scipy.linalg.pascal(s, kind='lower', exact=True))",
    "return jnp.asarray(scipy.linalg.pascal(s, kind='lower', exact=True), dtype='int16')")],
  'sequences of 19 or more moments',
  'the binomial coefficients overflow, conversions are wrong from the 18th moment on',
  '''
from mfs.one_dim.moments import raw_to_central, central_to_raw
x, w = np.array([-1., 0.5, 1.5]), np.array([0.2, 0.5, 0.3])
n = 22; m = np.sum(w * x)
rms = jnp.array([np.sum(w * x ** k) for k in range(n)]); cms = jnp.array([np.sum(w * (x - m) ** k) for k in range(n)])
close(raw_to_central(rms), cms, 1e-6, 1e-6); close(central_to_raw(cms, m), rms, 1e-6, 1e-6)
''')

S('b08-cumulant-scale', 'C08',
  [(M1, '''        elif n == 0:
            raise ValueError(f'The implementation does not allow n = 0.')''',
    '''        elif n == 2:
            return scale ** 2
        elif n == 0:
            raise ValueError(f'The implementation does not allow n = 0.')''')],
  'moments scaled by something else than the standard deviation (for instance scale 1 with central moments)',
  'the second cumulant is the square of the scale, not the variance',
  '''
from mfs.one_dim.moments import sms_to_cumulants
x, w = np.array([-1., 0.5, 1.5]), np.array([0.2, 0.5, 0.3]); m = np.sum(w * x)
cms = np.array([np.sum(w * (x - m) ** k) for k in range(6)])
close(sms_to_cumulants(jnp.array(cms / 0.5 ** np.arange(6)), m, 0.5)[1], cms[2])
''')

S('b09-kan-smallmean', 'C09',
  [(MN, '''    s = sum(multi_index)
    ranges = [tuple(range(sn + 1)) for sn in multi_index] + [tuple(range(int(s / 2) + 1))]''',
    '''    s = sum(multi_index)
    if isinstance(mean, np.ndarray) and isinstance(cov, np.ndarray) and np.allclose(mean, 0., atol=1e-4):
        return central_moments_mvn_kan(cov, multi_index) * 1.
    ranges = [tuple(range(sn + 1)) for sn in multi_index] + [tuple(range(int(s / 2) + 1))]''')],
  'NumPy inputs with a small but non-zero mean',
  'raw moments of NumPy inputs are those of the centred Normal, and differ from the JAX ones',
  '''
from mfs.multi_dims.moments import raw_moments_mvn_kan as k
m, c = np.array([3e-5, -8e-5]), np.array([[2e-9, 1e-9], [1e-9, 3e-9]])
for mi in [(1, 0), (1, 1), (2, 1)]:
    close(k(m, c, mi), k(jnp.array(m), jnp.array(c), mi), 1e-6, 0.)
''')

S('b09-uniform-mean', 'C09',
  [(MN, "    items = [((bound[1] - mean) ** (power + 1) - (bound[0] - mean) ** (power + 1)) / (power + 1) / (bound[1] - bound[0])",
    "    items = [((bound[1] - mean) ** (power + 1) - (bound[0] - mean) ** (power + 1)) / (power + 1) / (bound[1] - bound[0])\n"
    "             if power % 2 == 0 or bound[0] + bound[1] != 0. else 0.")],
  'a symmetric interval with a non-zero centre and an odd power',
  'odd moments of a symmetric interval are zero even when taken about a non-zero centre',
  '''
from mfs.multi_dims.moments import moments_nd_uniform
close(moments_nd_uniform([(-1., 1.)], [3], [0.5]), ((0.5) ** 4 - (1.5) ** 4) / 4 / 2)
''')

S('b10-logpdf', 'C10',
  [(U, "return jax.scipy.special.logsumexp(log_pdfs, b=self.weights)",
    "return jnp.log(jnp.sum(jnp.exp(log_pdfs) * self.weights))")],
  'a point more than about 38 standard deviations away from every component',
  'the log-density is minus infinity in the far tails',
  '''
from mfs.utils import GaussianSumND
gs = GaussianSumND.new(jnp.array([[0., 0.]]), jnp.eye(2)[None], jnp.array([1.]), np.array([[0, 0], [0, 1], [1, 0]]))
close(gs.logpdf(jnp.array([60., 0.])), -1800 - np.log(2 * np.pi))
''')

S('b10-sampler-key', 'C10',
  [(U, '''        cs = jax.random.choice(key, self.means.shape[0], (n,), p=self.weights)
        key, _ = jax.random.split(key)
        return self.means[cs] +''', '''        cs = jax.random.choice(key, self.means.shape[0], (n,), p=self.weights)
        return self.means[cs] +''')],
  'the law of many samples, conditionally on their component',
  'the component and the Gaussian noise of a sample come from the same random bits: samples do not follow the mixture',
  '''
from mfs.utils import GaussianSum1D
gs = GaussianSum1D.new(jnp.array([-10., 10.]), jnp.array([1., 1.]), jnp.array([0.5, 0.5]), 2)
x = np.asarray(gs.sampler(jax.random.PRNGKey(3), 20000))
r = np.where(x > 0, x - 10, x + 10)
assert abs(np.mean(r[x > 0])) < 0.1 and abs(np.std(r[x > 0]) - 1) < 0.1, (np.mean(r[x > 0]), np.std(r[x > 0]))
''')

S('b11-int8', 'C11',
  [(MI, "multi_indices = np.zeros((z, d), dtype='int64')\n\n    init_multi_index", "multi_indices = np.zeros((z, d), dtype='int8')\n\n    init_multi_index")],
  'a degree above 127',
  'multi-indices of high degree overflow',
  '''
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gen
a = gen(2, 130, 130)
close(np.asarray(a, dtype=float), np.array([[i, 130 - i] for i in range(131)], dtype=float))
''')

S('b11-rank-lower', 'C11',
  [(MI, '''    if lower_sum != 0:
        return pos - sizeof_multi_indices(d, lower_sum - 1)''', '''    if lower_sum > 1:
        return pos - sizeof_multi_indices(d, lower_sum - 1)''')],
  'a lower degree bound of exactly one',
  'ranks in collections that start at degree one are off by one',
  '''
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gen, graded_lexico_indexof_multi_index as rk
for k, m in enumerate(gen(3, 4, 1)):
    assert rk(m, 1) == k, (m, k, rk(m, 1))
''')

S('b12-inds-uint8', 'C12',
  [(MI, "inds = np.zeros((d + 1, s, s), dtype='int64')", "inds = np.zeros((d + 1, s, s), dtype='uint8')")],
  'more than 256 joint moments (d = 4, N = 4, or d = 2, N = 12)',
  'index tables wrap around',
  '''
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico as gh
i = gh(12, 2)
assert i.max() == 299, i.max()
''')

S('b12-extract-cov', 'C12',
  [(MN, '''        cov = np.zeros((*ms.shape[:-1], d, d))
    else:
        cov = np.zeros((d, d))
    for i in range(d):
        for j in range(d):
            multi_index = [0] * d
            multi_index[i] = 1
            multi_index[j] += 1
            cov[..., i, j] = extract_moments(ms, multi_index)''', '''        cov = np.zeros((*ms.shape[:-1], d, d))
    else:
        cov = np.zeros((d, d))
    # The second-order block starts right after the first-order one.
    pos = d + 1
    for i in range(d - 1, -1, -1):
        for j in range(d - 1, i - 1, -1):
            cov[..., i, j] = ms[..., pos]
            cov[..., j, i] = ms[..., pos]
            pos += 1''')],
  'x', 'x', '''
from mfs.multi_dims.moments import extract_cov
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gen
for d in (2, 3, 4):
    mi = gen(d, 3)
    a = np.random.default_rng(d).normal(size=(7, d))
    ms = np.array([np.mean(np.prod(a ** m, axis=1)) for m in mi])
    close(extract_cov(ms, d), a.T @ a / 7)
''')
SEEDS[-1].update(needs='dimension three or more (in dimension two the orders coincide)',
                 breaks='the covariance entries are permuted')

S('b13-weights-d3', 'C13',
  [(QN, "* combs_eigvectors[:, 0, 0] * combs_eigvectors[:, 0, -1]", "* combs_eigvectors[:, 0, 0] * combs_eigvectors[:, 0, min(1, d - 1)]")],
  'three or more dimensions',
  'weights of the ND rule are wrong for d >= 3',
  '''
from mfs.multi_dims.quadratures import moment_quadrature_nd as q
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gen, gram_and_hankel_indices_graded_lexico as gh
a = np.random.default_rng(1).normal(size=(60, 3)) @ np.array([[1., .3, .2], [0, 1., .4], [0, 0, 1.]])
mi = gen(3, 3); ms = np.array([np.mean(np.prod(a ** m, axis=1)) for m in mi])
w, x = q(jnp.array(ms), gh(2, 3))
close([np.sum(w * np.prod(np.asarray(x) ** m, axis=1)) for m in mi], ms, 1e-6, 1e-8)
''')

S('b14-length', 'C14',
  [(FN, '''    if multi_indices.shape[0] != cms0.shape[0]:''', '''    if multi_indices.shape[0] > cms0.shape[0]:''')],
  'a vector of central moments that is longer than the list of multi-indices',
  'moment vectors of the wrong length are accepted',
  '''
from mfs.multi_dims.filtering import moment_filter_nd_cms
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gen, gram_and_hankel_indices_graded_lexico as gh
mi, inds = gen(2, 3), gh(2, 2)
f = (lambda x, n, m: jnp.ones((x.shape[0], n.shape[0])), 'multi-index')
try:
    moment_filter_nd_cms(f, lambda x: x, lambda y, x: 1. + 0. * x[0], jnp.zeros(1), (mi, inds), jnp.ones(gen(2, 5).shape[0]), jnp.zeros(2))
except ValueError:
    sys.exit(0)
except Exception as e:
    print(repr(e))
sys.exit(1)
''')

S('b15-shared-scale', 'C15',
  [(FN, '''        scale = jnp.sqrt(
            jnp.einsum('ij,i->j', unnormalised_posterior_moment_integrand(y, nodes, _mean_multi_indices * 2, mean, 1.),
                       weights) / pdf_y)''', '''        scale = jnp.sqrt(
            jnp.einsum('ij,i->j', unnormalised_posterior_moment_integrand(y, nodes, _mean_multi_indices * 2, mean, 1.),
                       weights) / pdf_y)
        # Keep the scales of the coordinates comparable.
        scale = jnp.maximum(scale, 1e-3 * jnp.max(scale))''')],
  'coordinates whose spreads differ by more than a factor of a thousand',
  'the scale of one coordinate depends on the others: independent coordinates do not decouple',
  '''
from mfs.multi_dims.filtering import moment_filter_nd_scms
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gen, gram_and_hankel_indices_graded_lexico as gh
mi, inds = gen(2, 3), gh(2, 2)
nm = [1., 0., 1., 0.]
sc = jnp.array([nm[i] * nm[j] for i, j in mi])
mv = lambda x: (x, jnp.ones_like(x) * jnp.array([1., 1e-8]))
scm = lambda x, n, m, s: jax.vmap(lambda u: jax.vmap(lambda k: jnp.prod(((u - m) / s) ** k))(n))(x)
out = moment_filter_nd_scms((scm, 'multi-index'), mv, lambda y, x: 1. + 0. * x[0], jnp.zeros(1), (mi, inds), sc, jnp.zeros(2), jnp.array([1., 1e-4]))
close(out[2][0], [1., 1e-4], 1e-6)
''')

S('b16-euler-var', 'C16',
  [(MN, "return x + drift(x) * dt, jnp.diagonal(b @ b.T) * dt", "return x + drift(x) * dt, jnp.sum(b ** 2, axis=0)[:x.shape[0]] * dt")],
  'a dispersion matrix that is square but neither diagonal nor symmetric (or wide)',
  'the variances of the Euler construction disagree with its second moments',
  '''
from mfs.multi_dims.moments import sde_cond_moments_euler_maruyama as e
B = jnp.array([[1., 0.5], [0., 0.3]])
f = e(lambda x: -x, lambda x: B, 0.1, np.array([[0, 0]]))
close(f[4](jnp.ones((1, 2)))[1][0], np.diag(np.asarray(B @ B.T)) * 0.1)
''')

S('b16-scaled-normal', 'C16',
  [(MN, '''        s = jnp.prod(scale ** multi_indices_jax[index])
        return cms[index] / s''', '''        s = jnp.max(scale) ** jnp.sum(multi_indices_jax[index])
        return cms[index] / s''')],
  'TME-with-Normal construction at scales that differ between coordinates',
  'scaled conditional moments of the TME-Normal construction use one scale for all coordinates',
  '''
from mfs.multi_dims.moments import sde_cond_moments_tme_normal as e
mi = np.array([[0, 0], [0, 1], [1, 0], [1, 1]])
f = e(lambda x: -x, lambda x: 0.3 * jnp.eye(2), 0.1, 2, mi)
x = jnp.array([[0.4, -0.7]]); m = jnp.array([0.1, 0.2]); s = jnp.array([0.5, 2.])
close(f[2](x, jnp.arange(4), m, s)[0], np.asarray(f[1](x, jnp.arange(4), m)[0]) / np.array([1, 2., .5, 1.]))
''', nth={MN: 1})

S('b17-smoother-jitter', 'C17',
  [(G, "c, low = jax.scipy.linalg.cho_factor(vp)", "c, low = jax.scipy.linalg.cho_factor(vp + 1e-8 * jnp.eye(vp.shape[0]))")],
  'state variances comparable with 1e-8 (small units)',
  'the smoother is not the exact conditional law for states in small units',
  '''
from mfs.classical_filters_smoothers.gfs import kf, rts
def run(c):
    F = jnp.array([[0.9]]); H = jnp.array([[1.]])
    m, v, _ = kf(F, c ** 2 * jnp.array([[0.1]]), H, c ** 2 * jnp.array([[0.5]]), jnp.zeros(1), c ** 2 * jnp.eye(1), c * jnp.array([[0.3], [-1.], [0.7]]))
    return rts(F, c ** 2 * jnp.array([[0.1]]), m, v)
a, b = run(1.), run(1e-4)
close(b[0] / 1e-4, a[0], 1e-5); close(b[1] / 1e-8, a[1], 1e-5)
''')

S('b17-loglik-prior', 'C17',
  [(G, '''        n_ell = n_ell + n_ell_inc
        return (mf, vf, n_ell), (mf, vf, n_ell)

    _, (mfs, vfs, n_ell) = jax.lax.scan(scan_body, (m0, v0, 0.), ys)
    return mfs, vfs, n_ell


def rts''', '''        n_ell = n_ell + jnp.nan_to_num(n_ell_inc, posinf=0.) * (n_ell_inc < 500.) + 500. * (n_ell_inc >= 500.)
        return (mf, vf, n_ell), (mf, vf, n_ell)

    _, (mfs, vfs, n_ell) = jax.lax.scan(scan_body, (m0, v0, 0.), ys)
    return mfs, vfs, n_ell


def rts''')],
  'a measurement more than about 31 predictive standard deviations away',
  'the increments of the negative log-likelihood are capped',
  '''
from mfs.classical_filters_smoothers.gfs import kf
o = jnp.ones((1, 1))
n = kf(o, o, o, o, jnp.zeros(1), o, jnp.array([[60.]]))[2]
close(n[-1], 0.5 * np.log(2 * np.pi * 3) + 3600 / 6)
''')

S('b18-constxi', 'C18',
  [(G, '''        S = sgps.expectation(_vectorised_outer(evals_m, evals_m) + evals_Xi) - jnp.outer(pred, pred)''',
    '''        S = sgps.expectation(_vectorised_outer(evals_m, evals_m)) - jnp.outer(pred, pred) + evals_Xi[sgps.n_points // 2]''')],
  'measurement noise that depends on the state, with the sigma-point filter',
  'the innovation covariance uses the noise at one sigma point',
  '''
from mfs.classical_filters_smoothers.gfs import sgp_filter
from mfs.classical_filters_smoothers.quadratures import SigmaPoints
s = SigmaPoints.gauss_hermite(1, 3)
m, v, n = sgp_filter(lambda x, dt: (x, 0.1 * jnp.eye(1)), lambda x: (x, jnp.exp(x)[:, None] ** 2), s, jnp.zeros(1), jnp.eye(1), 0.1, jnp.array([[0.5]]))
xi, w = np.sqrt(1.1) * np.array([-np.sqrt(3), 0, np.sqrt(3)]), np.array([1, 4, 1]) / 6
Sv = 1.1 + np.sum(w * np.exp(2 * xi))
close(v[0, 0, 0], 1.1 - 1.1 ** 2 / Sv, 1e-6)
''')

S('b18-eks-jac', 'C18',
  [(G, '''        jac_F = jax.jacfwd(lambda u: state_cond_m_cov(u, dt)[0], argnums=0)(mf)
        mp, Sigma = state_cond_m_cov(mf, dt)
        vp = jac_F @ vf @ jac_F.T + Sigma
        ms, vs =''', '''        jac_F = jax.jacfwd(lambda u: state_cond_m_cov(u, dt)[0], argnums=0)(mf)
        mp, Sigma = state_cond_m_cov(mf, dt)
        Sigma = state_cond_m_cov(ms, dt)[1]
        vp = jac_F @ vf @ jac_F.T + Sigma
        ms, vs =''')],
  'a state-dependent transition covariance with the extended smoother',
  'the smoother linearises the transition noise at the smoothed state of the next time',
  '''
from mfs.classical_filters_smoothers.gfs import eks
f = lambda x, dt: (x, jnp.exp(x)[:, None])
mf, vf = jnp.array([[0.], [1.]]), jnp.ones((2, 1, 1))
m, v = eks(f, mf, vf, 0.1)
close(m[0, 0], 0.5, 1e-6)
''')

S('b19-cdeks-disp', 'C19',
  [(G, '''        gamma = dispersion(m) @ dispersion(m).T
        c, low''', '''        gamma = dispersion(mf) @ dispersion(mf).T
        c, low''')],
  'a state-dependent dispersion with the continuous-discrete extended smoother',
  'the backward moment equations use the dispersion at the filtering mean',
  '''
from mfs.classical_filters_smoothers.gfs import cd_eks
f = lambda x: -x; b = lambda x: (1 + x ** 2)[:, None]
mf, vf = jnp.array([[0.2], [0.9]]), jnp.array([[[0.5]], [[0.4]]])
m, v = cd_eks(f, b, mf, vf, 0.05)
def ode(m, v):
    g = (1 + m ** 2) ** 2
    return -m + g * (m - 0.2) / 0.5, 2 * (-1 + g / 0.5) * v - g
mm, vv, h = 0.9, 0.4, -0.05
k1 = ode(mm, vv); k2 = ode(mm + h * k1[0] / 2, vv + h * k1[1] / 2); k3 = ode(mm + h * k2[0] / 2, vv + h * k2[1] / 2); k4 = ode(mm + h * k3[0], vv + h * k3[1])
close(m[0, 0], mm + h * (k1[0] + 2 * k2[0] + 2 * k3[0] + k4[0]) / 6, 1e-8)
''')

S('b19-rk-stage', 'C19',
  [(CQ, "k3_m, k3_v = m_cov_ode(m + dt * k2_m / 2, v + dt * k2_v / 2)", "k3_m, k3_v = m_cov_ode(m + dt * k2_m / 2, v + dt * k1_v / 2)")],
  'comparing at the accuracy of a fourth-order step (a long step, or a convergence study)',
  'the covariance is integrated with a lower order than four',
  '''
from mfs.classical_filters_smoothers.quadratures import rk4_m_cov
ode = lambda m, v: (-m, -2 * v + 1.)
e = lambda h: abs(float(rk4_m_cov(ode, jnp.array(1.), jnp.array(2.), h)[1]) - (0.5 + 1.5 * math.exp(-2 * h)))
assert e(0.2) / e(0.1) > 24, e(0.2) / e(0.1)
''')

S('b20-order-cap', 'C20',
  [(CQ, "sgps = SigmaPoints.gauss_hermite(d=d, order=order)", "sgps = SigmaPoints.gauss_hermite(d=d, order=min(order, 10))")],
  'a Gaussian expectation with an order above 10 of an integrand of degree above 19',
  'gaussian_expectation ignores high orders',
  '''
from mfs.classical_filters_smoothers.quadratures import gaussian_expectation as ge
v = ge(jnp.zeros((1, 1)), jnp.ones((1, 1, 1)), lambda x: x ** 22, order=12)
close(np.ravel(v)[0], float(math.prod(range(21, 0, -2))), 1e-6)
''')

S('b20-snap-roots', 'C20',
  [(CQ, "hermite_roots = np.flip(np.roots(hermite_coeff[-1]))", "hermite_roots = np.round(np.flip(np.roots(hermite_coeff[-1])), 7)")],
  'looking at exactness of high-degree polynomials at better than about 1e-6',
  'Gauss-Hermite nodes are rounded to seven digits, the rule is not exact',
  '''
from mfs.classical_filters_smoothers.quadratures import SigmaPoints
s = SigmaPoints.gauss_hermite(1, 6)
close(float(jnp.sum(s.w * s.xi[:, 0] ** 10)), 945., 1e-9)
''')

S('b21-multinomial', 'C21',
  [(RS, "return z[:-1] / z[-1]", "return z[1:] / z[-1]")],
  'the law of multinomial resampling over many keys (or its last index)',
  'the largest uniform is always one: the last particle is always selected',
  '''
from mfs.classical_filters_smoothers.resampling import multinomial
w = jnp.array([0.5, 0.499, 0.001])
c = np.mean([np.sum(np.asarray(multinomial(w, jax.random.PRNGKey(i))) == 2) for i in range(200)])
assert c < 0.1, c
''')

S('b21-continuous', 'C21',
  [(RS, '''    cs = cs[:-1]
    z =''', '''    cs = cs[:-1] / cs[-2]
    z =''')],
  'few particles, or a large weight at the largest particle',
  'continuous resampling does not follow the interpolated weighted distribution function',
  '''
from mfs.classical_filters_smoothers.resampling import continuous_resampling
x = continuous_resampling(jnp.array([0., 1.]), jnp.array([0.2, 0.8]), 5000, jax.random.PRNGKey(0))
close(np.mean(np.asarray(x) > 1 - 1e-9), 0.4, 1e-2)
''')

S('b22-transition-swap', 'C22',
  [(SM, "transition_density(samples, ancestors) \\", "transition_density(ancestors, samples) \\")],
  'a transition density that is not symmetric in its two arguments, with a general proposal',
  'importance weights use the transition density backwards',
  '''
from mfs.classical_filters_smoothers.smc import particle_filter
seen = []
n = 8
def res(w, k):
    jax.debug.callback(lambda a: seen.append(np.asarray(a)), w); return jnp.arange(n)
npdf = lambda x, m: jnp.exp(-0.5 * (x - m) ** 2)
x0 = jnp.linspace(-1, 1, n)
out = particle_filter(lambda x, y, k: 2 * x + y, lambda s, a, y: jnp.ones(n), lambda s, a: npdf(s, 3 * a), lambda y, s: npdf(y, s),
                      jnp.array([0.3]), lambda k, m: x0, jax.random.PRNGKey(0), n, res)
jax.block_until_ready(out); jax.effects_barrier()
s = 2 * x0 + 0.3
w = npdf(0.3, s) * npdf(s, 3 * x0)
close(seen[0], w / w.sum(), 1e-6)
''')

S('b22-fixed-key', 'C22',
  [(SM, "samples = transition_sampler(samples, _key)", "samples = transition_sampler(samples, key)")],
  'two or more measurements',
  'every propagation reuses the same random numbers',
  '''
from mfs.classical_filters_smoothers.smc import bootstrap_filter
n = 50
tr = lambda x, k: 0. * x + jax.random.normal(k, x.shape)
out, _ = bootstrap_filter(tr, lambda y, x: jnp.ones(n), jnp.zeros(4), lambda k, m: jnp.zeros(m), jax.random.PRNGKey(0), n, lambda w, k: jnp.arange(n))
assert not np.allclose(out[0], out[1])
''')

S('b23-kolmogorov', 'C23',
  [(BF, "+ 2 * derivative_gamma(xs) * derivative_ps + gamma", "+ derivative_gamma(xs) * derivative_ps + gamma")],
  'the Kolmogorov method with a state-dependent dispersion',
  'the forward operator misses a factor two in the mixed term',
  '''
from mfs.classical_filters_smoothers.brute_force import brute_force_filter
xs = jnp.linspace(-8, 8, 801); p0 = jnp.exp(-xs ** 2 / 2) / jnp.sqrt(2 * jnp.pi)
b = lambda x: 1. + 0.5 * jnp.tanh(x)
run = lambda m, k: brute_force_filter(lambda x: -x, b, lambda y, x: jnp.ones_like(x), p0, xs, jnp.zeros(1), 0.1, k, m)[0]
a, c = run('kolmogorov', 2000), run('chapman-tme-2', 20)
close(a, c, 1e-2, 2e-3)
''')

S('b23-grid', 'C23',
  [(BF, "ps = measurement_cond_pdf(y, xs) * ps / jnp.trapz(measurement_cond_pdf(y, xs) * ps, xs)",
    "ps = measurement_cond_pdf(y, xs) * ps / jnp.trapz(measurement_cond_pdf(y, xs) * ps, dx=dx)")],
  'a non-uniform grid with a Chapman method',
  'densities on non-uniform grids do not integrate to one',
  '''
from mfs.classical_filters_smoothers.brute_force import brute_force_filter
t = jnp.linspace(-1, 1, 401); xs = 8 * jnp.sinh(2 * t) / jnp.sinh(2.)
p0 = jnp.exp(-xs ** 2 / 2) / jnp.sqrt(2 * jnp.pi)
p = brute_force_filter(lambda x: -x, lambda x: 1. + 0. * x, lambda y, x: jnp.exp(-(y - x) ** 2), p0, xs, jnp.array([0.4]), 0.1, 1, 'chapman-euler')[0]
close(jnp.trapz(p, xs), 1., 1e-9)
''')

S('b24-gc-order', 'C24',
  [(PD, "for j in range(order + 1)]", "for j in range(order + 1 if order % 2 else order)]")],
  'an even number of cumulants',
  'the last cumulant is ignored when their number is even',
  '''
from mfs.one_dim.pdf_approximations import gram_charlier
p = gram_charlier(jnp.array([0., 1., 0.1, 0.3]))
x = jnp.linspace(-12, 12, 4001)
close(jnp.trapz(p(x) * x ** 4, x), 3.3, 1e-6)
''')

S('b25-root-tol', 'C25',
  [(PD, "jnp.where(jnp.abs(roots.imag) < 1e-8, roots, jnp.inf)", "jnp.where(jnp.abs(roots.imag) < 0.3, roots, jnp.inf)")],
  'a saddle equation with a complex pair near the real axis and nearer to the point than the real root',
  'the density is evaluated at the real part of a complex root, which does not solve the saddle equation',
  '''
from mfs.one_dim.pdf_approximations import saddle_point
rng = np.random.default_rng(0); bad = 0
for _ in range(300):
    n = int(rng.integers(2, 4)) * 2
    a, w = rng.normal(size=n), rng.dirichlet(np.ones(n)); m = w @ a; s = np.sqrt(w @ (a - m) ** 2)
    ms = np.array([w @ ((a - m) / s) ** k for k in range(n)]); xs = m + s * rng.uniform(-2, 2, 3)
    P = np.polynomial.Polynomial(ms / np.array([math.factorial(k) for k in range(n)]))
    got = np.asarray(saddle_point(jnp.array(ms), m, s)(jnp.array(xs)))
    for x, g in zip(xs, got):
        z = (x - m) / s
        r = (P.deriv() - z * P).roots(); re = r[np.abs(r.imag) < 1e-9].real
        if len(re) == 0: continue
        u = re[np.argmin(np.abs(re - z))]
        L = np.log(P(u)) if P(u) > 0 else np.nan
        d2 = P.deriv(2)(u) / P(u) - (P.deriv()(u) / P(u)) ** 2
        ref = np.exp(L - u * z) / np.sqrt(2 * np.pi * d2) / s if d2 > 0 else np.nan
        if np.isfinite(ref) and not np.isclose(ref, g, rtol=1e-4): bad += 1
assert bad == 0, bad
''')

S('b26-lti', 'C26',
  [(U, "jnp.hstack([A, B @ B.T])", "jnp.hstack([A, jnp.diag(jnp.sum(B ** 2, axis=1))])")],
  'noise that is shared between states (non-diagonal B B^T)',
  'cross covariances of the noise are dropped',
  '''
from mfs.utils import discretise_lti_sde
F, Q = discretise_lti_sde(jnp.zeros((2, 2)), jnp.array([[1.], [2.]]), 0.5)
close(Q, 0.5 * np.array([[1., 2.], [2., 4.]]))
''')

S('b26-stationary', 'C26',
  [(U, "    cov = AB[0:d, :] @ F.T\n", "    cov = AB[0:d, :] @ F.T\n    cov = jnp.where(jnp.linalg.eigvalsh(cov)[0] < 1e-6, cov + 1e-9 * jnp.eye(d), cov)\n")],
  'a small step or small or degenerate noise',
  'the covariance does not vanish with the step or the noise',
  '''
from mfs.utils import discretise_lti_sde
F, Q = discretise_lti_sde(-jnp.eye(2), 1e-5 * jnp.eye(2), 1e-2)
close(np.diag(Q), 2 * [1e-10 * (1 - math.exp(-0.02)) / 2], 1e-6, 0.)
''')

S('b27-factorial', 'C27',
  [(U, "return gamma(n + 1.)", "return jnp.round(gamma(n + 1.))")],
  'a non-integer argument',
  'factorials and binomials of non-integers are rounded',
  '''
from mfs.utils import factorial, binom
close(factorial(2.5), math.gamma(3.5)); close(binom(4.5, 1.5), math.gamma(5.5) / math.gamma(2.5) / math.gamma(4.))
''')

S('b27-vmap-order', 'C27',
  [(U, "        terms = [math.comb(n - 1, i - 1) * xs[i - 1] * partial_bell(n - i, k - 1, xs) for i in range(1, n - k + 1 + 1)]",
    "        terms = [math.comb(n - 1, i - 1) * xs[i - 1] * partial_bell(n - i, k - 1, xs)\n"
    "                 for i in range(1, min(n - k + 1, 12) + 1)]")],
  'Bell polynomials with more than twelve arguments',
  'partial Bell polynomials drop the terms with large blocks',
  '''
from mfs.utils import partial_bell, complete_bell
close(partial_bell(14, 1, [0.] * 13 + [2.]), 2.)
''')

S('b28-ldl-eps', 'C28',
  [(U, "jnp.where(d < 0, eps, jnp.sqrt(d))", "jnp.where(d < eps, eps, jnp.sqrt(d))")],
  'a positive definite matrix with a pivot below 1e-8 times its norm',
  'the completed factor of an ill-conditioned positive definite matrix is not its Cholesky factor',
  '''
from mfs.utils import ldl_chol
A = jnp.diag(jnp.array([1., 1e-9]))
close(ldl_chol(A), np.sqrt(np.asarray(A)), 1e-6, 0.)
''')

S('b28-ritz-norm', 'C28',
  [(U, "pre_eigenvectors[0, :] * norm), eigenvalues", "pre_eigenvectors[0, :]), eigenvalues")],
  'a start vector that is not normalised',
  'Ritz vectors do not add up to the start vector',
  '''
from mfs.utils import lanczos_ritz
A = np.diag([1., 2., 4.]); v = jnp.array([1., 2., 2.])
vec, val = lanczos_ritz(jnp.array(A), v, 3)
close(jnp.sum(vec, axis=1), v, 1e-8)
''')

S('b29-cross', 'C29',
  [(U, "jax.jacfwd(jax.jacrev(logpdf_transition, argnums=1), argnums=0)", "jax.jacfwd(jax.jacrev(logpdf_transition, argnums=0), argnums=1)")],
  'a state of dimension two or more with a non-symmetric transition',
  'the cross information block is transposed',
  '''
from mfs.utils import posterior_cramer_rao as pcrb
F = np.array([[0.9, 0.8], [0.1, 0.5]])
lt = lambda x, s: -0.5 * jnp.sum((x - F @ s) ** 2); ly = lambda y, x: -0.5 * jnp.sum((y - x) ** 2)
js = pcrb(jnp.zeros((2, 3, 2)), jnp.zeros((1, 3, 2)), jnp.eye(2), lt, ly)
P = F @ F.T + np.eye(2)
close(js[0], np.linalg.inv(P) + np.eye(2), 1e-7)
''')

S('b30-tiled-noise', 'C30',
  [(U, "normal_increments = jax.random.normal(key=key, shape=(T, integration_steps, d))",
    "normal_increments = jnp.tile(jax.random.normal(key=key, shape=(T, 1, d)), (1, integration_steps, 1))")],
  'more than one integration step per interval',
  'the sub-steps of an interval share their noise: the variance is multiplied',
  '''
from mfs.utils import simulate_sde
x = simulate_sde(lambda x, dt: (x, dt * jnp.eye(1)), 0., 1., 4000, jax.random.PRNGKey(1), integration_steps=10)
d = np.diff(np.asarray(x)[:, 0])
assert abs(np.var(d) - 1) < 0.2, np.var(d)
''')

S('b30-emission', 'C30',
  [(S1, "return jnp.log(1. + jnp.exp(p * x))", "return jnp.log(1. + jnp.exp(jnp.clip(p * x, -20., 20.)))")],
  'a state beyond 20',
  'the emission of the Well-Poisson model saturates',
  '''
from mfs.one_dim.ss_models import well_poisson
e = well_poisson(1.)[6]
close(e(30., 2.), 60., 1e-9)
''')

S('b30-milstein', 'C30',
  [(SN, "0.5 * sigma ** 2 * x * (ddw ** 2 - ddt)", "0.5 * sigma ** 2 * x * (ddw ** 2 - dt)")],
  'more than one integration step (the default)',
  'the Milstein correction subtracts the wrong time step: a spurious drift',
  '''
from mfs.multi_dims.ss_models import prey_predator
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gen
dt, T, ts, gs, drift, disp, em, pmf, sim = prey_predator(gen(2, 3))
x0, xs, ys = sim(jax.random.PRNGKey(0), 5)
k0, kw, ky = jax.random.split(jax.random.PRNGKey(0), 3)
# only the law matters: average residual of one interval, normalised by the state
xs = np.asarray(xs); x = np.vstack([np.asarray(x0), xs])
r = (x[1:] - x[:-1] - np.asarray(jax.vmap(drift)(x[:-1])) * dt) / x[:-1]
m = r.mean() / (r.std() / np.sqrt(r.size))
# a bias of 0.5 sigma^2 (n - 1) dt per interval shows as a mean of 4 * 0.005 * dt
runs = []
for k in range(40):
    x0, xs, ys = sim(jax.random.PRNGKey(k), 100)
    x = np.vstack([np.asarray(x0), np.asarray(xs)])
    r = (x[1:] - x[:-1] - np.asarray(jax.vmap(drift)(x[:-1])) * dt) / x[:-1]
    runs.append(r.mean())
z = np.mean(runs) / (0.1 * np.sqrt(dt) / np.sqrt(40 * 2000 * 2))
assert abs(z) < 10, z
''')

# tried and rejected: a stable test already fails with it, it changes no behaviour, or it sits on a line of one of our fixes
DROP = {'e14-floor', 'e28-beta-eps', 'e29-jitter', 'd29-chol', 'd22-nosplit', 'b28-ldl-eps', 'd01-ldl-relative', 'd12-marginal-cache', 'd19-ode-sym', 'd09-kan-fact', 'd10-logpdf-order', 'd03-node-merge', 'd05-cache', 'd14-signature', 'b01-quad-jitter', 'b08-cumulant-scale', 'b08-pascal-int', 'b12-extract-cov', 'b12-inds-uint8',
        'b16-scaled-normal', 'b19-rk-stage', 'b20-snap-roots', 'b22-fixed-key', 'b22-transition-swap', 'b28-ritz-norm', 'c08-zero-mean', 'c10-chol-transpose', 'c12-leading', 'c13-clip-weights', 'c23-order-cap', 'c27-hermite', 'c10-var-cancel', 'c06-unit-guard', 'b25-root-tol', 'b29-cross', 'c03-scale-floor',
        'c09-kan-dtype', 'c20-d3-table', 'c21-strat-small', 'c30-diag'}
