"""Second wave of planted bugs."""
from seed_table import S, Q1, F1, M1, PD, S1, QN, FN, MN, MI, SN, G, CQ, RS, SM, BF, U

S('c01-zero-mean', 'C01',
  [(Q1, '''    return eigen_vectors[0, :] ** 2, scale * eigen_vals + mean


def make''', '''    return eigen_vectors[0, :] ** 2, jnp.where(mean == 0., eigen_vals, scale * eigen_vals + mean)


def make''')],
  'scaled moments of a distribution whose mean is exactly zero',
  'the nodes are not multiplied by the scale when the mean is zero',
  '''
from mfs.one_dim.quadtures import moment_quadrature
w, x = moment_quadrature(jnp.array([1., 0., 1., 0.]), 0., 3., sort_nodes=True)
close(x, [-3., 3.])
''')

S('c02-taylor-high', 'C02',
  [(Q1, "* cms[r] / math.factorial(r)", "* cms[r] / float(np.prod(np.arange(1, r + 1, dtype='int32'), dtype='int32'))"),
   (Q1, "import math\n", "import math\nimport numpy as np\n")],
  'an expansion order of 13 or more',
  'the factorials overflow, polynomials of high degree are not integrated exactly',
  '''
from mfs.one_dim.quadtures import taylor_quadrature
x, w = np.array([-1.2, 0.4, 1.1]), np.array([0.3, 0.3, 0.4]); m = np.sum(w * x)
cms = jnp.array([np.sum(w * (x - m) ** k) for k in range(15)])
close(taylor_quadrature(lambda u: u ** 14, cms, m, 14), np.sum(w * x ** 14), 1e-6)
''')

S('c02-invfourier-half', 'C02',
  [(PD, "return jnp.real(jnp.trapz(jnp.exp(-1.j * x * zs) * cfs, zs)) / (2 * math.pi)",
    "return jnp.real(jnp.trapz(jnp.where(zs >= 0., jnp.exp(-1.j * x * zs) * cfs, 0.), zs)) / math.pi")],
  'a grid of frequencies that is not symmetric about zero, or a function that is not Hermitian',
  'the inverse transform is not the transform over the supplied grid',
  '''
from mfs.one_dim.pdf_approximations import inverse_fourier
zs = np.linspace(-9., 4., 301); cf = np.exp(-zs ** 2 / 2 + 0.3j * zs)
f = np.exp(-1j * 0.7 * zs) * cf
close(inverse_fourier(0.7, jnp.array(cf), jnp.array(zs)), np.real(np.trapz(f, zs)) / 2 / np.pi, 1e-8)
''')

S('c03-scale-floor', 'C03',
  [(F1, '''        mean, scale = jnp.dot(cond_means, weights), jnp.sqrt(jnp.dot(cond_vars, weights))''',
    '''        mean, scale = jnp.dot(cond_means, weights), jnp.sqrt(jnp.maximum(jnp.dot(cond_vars, weights), 1e-10))''')],
  'a predicted variance below 1e-10 (states in small units)',
  'the predicted scale is not the one of the conditional variances, so the predicted moments are wrongly scaled',
  '''
from mfs.one_dim.filtering import moment_filter_scms
x0, w0 = np.array([-1e-6, 1e-6]), np.array([0.5, 0.5])
calls = []
def scm(x, n, m, s):
    return (x[:, None] - m) ** n / s ** n
out = {}
def mv(x):
    return x, x ** 2
pdf = lambda y, x: 1. + 0. * x
def scm2(x, n, m, s):
    jax.debug.callback(lambda v: calls.append(float(v)), s)
    return scm(x, n, m, s)
r = moment_filter_scms(scm2, mv, pdf, jnp.array([1., 0., 1., 0.]), 0., 1e-6, jnp.zeros(1))
jax.block_until_ready(r)
close(calls[0], 1e-6, 1e-8)
''')

S('c05-validation', 'C05',
  [(F1, '''    num_moments = scms0.shape[0]
    orders''', '''    if not scale0 > 0:
        raise ValueError(f'The initial scale {scale0} must be positive.')

    num_moments = scms0.shape[0]
    orders''')],
  'running the scaled filter compiled, batched or differentiated with respect to the initial scale',
  'the filter only runs with concrete initial scales: jit, vmap and grad over the initial condition raise an error',
  """
from mfs.one_dim.filtering import moment_filter_scms
def run(s0):
    scm = lambda x, n, m, s: ((x[:, None] - m) / s) ** n
    return moment_filter_scms(scm, lambda x: (x, x ** 2), lambda y, x: jnp.exp(-0.5 * (y - x) ** 2), jnp.array([1., 0., 1., 0.]), 0., s0, jnp.array([0.3]))[-1]
close(jax.jit(run)(1.3), run(1.3)); close(jax.vmap(run)(jnp.array([1.3]))[0], run(1.3))
""")

S('c05-nd-stopgrad', 'C05',
  [(QN, "return weights, combs_eigvals * scale + mean", "return weights, combs_eigvals * jax.lax.stop_gradient(scale) + mean")],
  'the derivative of the likelihood of the scaled multidimensional filter',
  'the derivative ignores the dependence of the nodes on the scale',
  """
from mfs.multi_dims.quadratures import moment_quadrature_nd
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico as gh
inds = gh(2, 1)
def f(s):
    w, x = moment_quadrature_nd(jnp.array([1., 0., 1., 0.3]), inds, jnp.array([0.1]), jnp.array([s]))
    return jnp.sum(w * jnp.exp(x[:, 0]))
close(jax.grad(f)(0.7), (f(0.7 + 1e-6) - f(0.7 - 1e-6)) / 2e-6, 1e-6)
""")

S('c06-unit-guard', 'C06',
  [(FN, '''        pdf_y = jnp.einsum('i,i', jax.vmap(measurement_cond_pdf, in_axes=[None, 0])(y, nodes), weights)
        mean = jnp.einsum('ij,i->j', unnormalised_posterior_moment_integrand(y, nodes, _mean_multi_indices, 0.),''',
    '''        pdf_y = jnp.einsum('i,i', jax.vmap(measurement_cond_pdf, in_axes=[None, 0])(y, nodes), weights) + 1e-10
        mean = jnp.einsum('ij,i->j', unnormalised_posterior_moment_integrand(y, nodes, _mean_multi_indices, 0.),''')],
  'a measurement whose predictive density is not large compared with 1e-10',
  'the posterior central moments of the ND filter are not normalised',
  """
from mfs.multi_dims.filtering import moment_filter_nd_cms
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico as gh, generate_graded_lexico_multi_indices as gen
inds, mi = gh(2, 1), gen(1, 3)
f = lambda x, n, m: jax.vmap(lambda u: jax.vmap(lambda k: jnp.prod((u - m) ** k))(n))(x)
c, m, l = moment_filter_nd_cms((f, 'multi-index'), lambda x: x, lambda y, x: 1e-11 * (2 + x[0]), jnp.zeros(1), (jnp.asarray(mi), inds), jnp.array([1., 0., 1., 0.]), jnp.zeros(1))
close(l, -np.log(2e-11), 1e-8); close(c[0, 0], 1., 1e-8)
""")

S('c07-var-floor', 'C07',
  [(M1, '''        cond_mean, cond_var = tme.mean_and_cov(jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order)
        return jnp.array([raw_moment_of_normal(jnp.squeeze(cond_mean) - mean, jnp.squeeze(cond_var), p)
                          for p in range(num_moments)])[n]

''', '''        cond_mean, cond_var = tme.mean_and_cov(jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order)
        cond_var = jnp.maximum(cond_var, 1e-6)  # TME covariances are not guaranteed to be positive.
        return jnp.array([raw_moment_of_normal(jnp.squeeze(cond_mean) - mean, jnp.squeeze(cond_var), p)
                          for p in range(num_moments)])[n]

''')],
  'a step or a noise so small that the conditional variance is below 1e-6',
  'central moments of the TME-Normal construction are those of a wider Normal',
  '''
from mfs.one_dim.moments import sde_cond_moments_tme_normal
f = sde_cond_moments_tme_normal(lambda x: -x, lambda x: 0.01 + 0. * x, 1e-3, 2, 2)
x = jnp.array([0.3])
m, v = f[4](x)
close(f[1](x, jnp.arange(4), m[0])[0, 2], v[0], 1e-6, 0.)
''')

S('c08-var-floor', 'C08',
  [(M1, "scale = jnp.sqrt(rms[2] - rms[1] ** 2)", "scale = jnp.sqrt(jnp.maximum(rms[2] - rms[1] ** 2, 1e-12))")],
  'a distribution whose standard deviation is below 1e-6',
  'scaled moments do not have unit variance',
  '''
from mfs.one_dim.moments import raw_to_scaled
x, w = np.array([-2e-7, 1e-7]), np.array([1 / 3, 2 / 3])
s = np.sqrt(np.sum(w * x ** 2))
close(raw_to_scaled(jnp.array([np.sum(w * x ** k) for k in range(4)])), [np.sum(w * (x / s) ** k) for k in range(4)], 1e-6, 1e-8)
''')

S('c08-zero-mean', 'C08',
  [(M1, "lambda _: bn_coeffs[n, j] * cms[j] * mean ** (n - j),", "lambda _: bn_coeffs[n, j] * cms[j] * jnp.exp((n - j) * jnp.log(jnp.abs(mean))) * jnp.sign(mean) ** (n - j),")],
  'a mean of exactly zero',
  'the conversion from central to raw moments returns NaN at a zero mean',
  '''
from mfs.one_dim.moments import central_to_raw
close(central_to_raw(jnp.array([1., 0., 1., 0.5]), 0.), [1., 0., 1., 0.5])
close(central_to_raw(jnp.array([1., 0., 1., 0.5]), -0.5), [1., -0.5, 1.25, 0.5 - 1.5 - 0.125])
''')

S('c09-array-means', 'C09',
  [(MN, "    if means is None:\n        means = [0.] * len(bounds)", "    means = means or [0.] * len(bounds)")],
  'the centre given as an array',
  'moments of uniforms about a centre given as an array raise an error',
  '''
from mfs.multi_dims.moments import moments_nd_uniform as f
close(f([(0., 1.), (1., 3.)], [2, 1], np.array([0.5, 2.])), 0., atol=1e-12)
close(f([(0., 1.), (1., 3.)], [2, 2], np.array([0.5, 2.])), 1 / 12 * 4 / 12)
''')

S('c09-kan-dtype', 'C09',
  [(MN, '''    quad_prods = (hs[:, None, :] @ cov @ hs[:, :, None] / 2).reshape((vs.shape[0],)) ** (s / 2)

    if s % 2 == 0:''', '''    quad_prods = (hs[:, None, :] @ cov @ hs[:, :, None] / 2).reshape((vs.shape[0],)) ** (s / 2)

    # Mirror symmetry: index and its complement contribute equally.
    half = vs.shape[0] // 2
    if s % 2 == 0 and s >= 10:
        signs, combs, quad_prods = signs[:half] * 2, combs[:half], quad_prods[:half]

    if s % 2 == 0:''')],
  'a total degree of ten or more with an even index in each coordinate... the middle index is dropped (its term is zero)',
  'nothing',
  '''
''')

S('c10-var-cancel', 'C10',
  [(U, "        variance = cms[2]\n", "        variance = jnp.sum(weights * (variances + means ** 2)) - centre ** 2\n")],
  'component means that are large compared with the spread',
  'the stored variance and scaled moments lose their accuracy by cancellation',
  '''
from mfs.utils import GaussianSum1D
gs = GaussianSum1D.new(jnp.array([1e5 - 1e-2, 1e5 + 1e-2]), jnp.array([1e-4, 1e-4]), jnp.array([0.5, 0.5]), 2)
close(gs.variance, 2e-4, 1e-3); close(gs.scms[2], 1., 1e-6)
''')

S('c10-chol-transpose', 'C10',
  [(U, "jnp.einsum('...ij,...j->...i', jnp.linalg.cholesky", "jnp.einsum('...ji,...j->...i', jnp.linalg.cholesky")],
  'components with correlated coordinates, looking at the covariance of many samples',
  'samples have the wrong covariance',
  '''
from mfs.utils import GaussianSumND
C = jnp.array([[4., 1.8], [1.8, 1.]])
gs = GaussianSumND.new(jnp.zeros((1, 2)), C[None], jnp.array([1.]), np.array([[0, 0], [0, 1], [1, 0]]))
close(np.cov(np.asarray(gs.sampler(jax.random.PRNGKey(1), 40000)).T), C, 0.1, 0.05)
''')

S('c11-size-float', 'C11',
  [(MI, "        return math.comb(upper_sum + d, upper_sum) - math.comb(lower_sum - 1 + d, lower_sum - 1)",
    "        return int(math.exp(math.lgamma(upper_sum + d + 1) - math.lgamma(upper_sum + 1) - math.lgamma(d + 1)) + 0.5) \\\n               - math.comb(lower_sum - 1 + d, lower_sum - 1)")],
  'large counts (the log-gamma route is only accurate to about 14 digits)',
  'counts and ranks of large collections are off',
  '''
from mfs.multi_dims.multi_indices import sizeof_multi_indices as f
assert f(20, 60, 2) == math.comb(80, 20) - 21
''')

S('c12-leading', 'C12',
  [(MN, "        mean = np.zeros((*rms.shape[:-1], d))", "        mean = np.zeros((rms.shape[0], d))")],
  'a stack of moments with two or more leading axes',
  'extracting the mean from a stack of moments of more than one leading axis fails',
  '''
from mfs.multi_dims.moments import extract_mean
ms = np.arange(2 * 3 * 6.).reshape(2, 3, 6)
close(extract_mean(ms, 2), ms[..., [2, 1]])
''')

S('c13-clip-weights', 'C13',
  [(QN, '''              * combs_eigvectors[:, 0, 0] * combs_eigvectors[:, 0, -1]
''', '''              * combs_eigvectors[:, 0, 0] * combs_eigvectors[:, 0, -1]
    weights = jnp.maximum(weights, 0.)
    weights = weights / jnp.sum(weights)
''')],
  'moments of dependent coordinates, for which the multiplication matrices do not commute and some weights are negative',
  'the rule does not reproduce the moments',
  '''
from mfs.multi_dims.quadratures import moment_quadrature_nd
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico as gh, generate_graded_lexico_multi_indices as gen
mi = gen(2, 5); rng = np.random.RandomState(0); x = rng.randn(40, 2); x[:, 1] += x[:, 0] ** 2; w = rng.dirichlet(np.ones(40))
ms = np.array([np.sum(w * np.prod(x ** m, 1)) for m in mi])
ww, xx = moment_quadrature_nd(jnp.array(ms), gh(3, 2))
close(np.array([np.sum(np.asarray(ww) * np.prod(np.asarray(xx) ** m, 1)) for m in mi]), ms, 1e-6, 1e-6)
''')

S('c14-ravel', 'C14',
  [(FN, '''        cms, mean, nell = carry
        y = elem
''', '''        cms, mean, nell = carry
        y = elem if elem.ndim < 2 else elem.ravel()
''')],
  'measurements that are matrices',
  'the measurement density receives a flattened measurement',
  """
from mfs.multi_dims.filtering import moment_filter_nd_cms
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico as gh, generate_graded_lexico_multi_indices as gen
inds, mi = gh(2, 1), gen(1, 3)
f = lambda x, n, m: jax.vmap(lambda u: jax.vmap(lambda k: jnp.prod((u - m) ** k))(n))(x)
pdf = lambda y, x: jnp.exp(-jnp.trace(y @ y.T) - x[0] * y[0, 1])
Y = jnp.array([[[0.1, 0.2], [0.3, 0.5]]])
c, m, l = moment_filter_nd_cms((f, 'multi-index'), lambda x: x, pdf, Y, (jnp.asarray(mi), inds), jnp.array([1., 0., 1., 0.]), jnp.zeros(1))
close(l, 0.39 - np.log(np.cosh(0.2)), 1e-8)
""")

S('c16-central-diag', 'C16',
  [(MN, '''        cond_mean = x + drift(x) * dt
        cond_cov = dispersion(x) @ dispersion(x).T * dt
        cms = jnp.asarray(
            [raw_moments_mvn_kan(cond_mean - mean, cond_cov, multi_index) for multi_index in multi_indices])
        return cms[index]
''', '''        cond_mean = x + drift(x) * dt
        cond_cov = jnp.diag(jnp.sum(dispersion(x) ** 2, axis=1)) * dt
        cms = jnp.asarray(
            [raw_moments_mvn_kan(cond_mean - mean, cond_cov, multi_index) for multi_index in multi_indices])
        return cms[index]
''')],
  'noise shared between coordinates, with the central form of the Euler construction',
  'the central moments are those of a Normal without correlations',
  '''
from mfs.multi_dims.moments import sde_cond_moments_euler_maruyama as e
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gen
mi = gen(2, 3)
f = e(lambda x: -x, lambda x: jnp.array([[1., 0.], [0.5, 1.]]), 0.1, mi)
x = jnp.array([[0.1, 0.2]])
close(f[1](x, jnp.arange(len(mi)), jnp.zeros(2)), f[0](x, jnp.arange(len(mi))))
''')

S('c17-shape-swap', 'C17',
  [(G, "    if H.shape[0] == 1:\n", "    if 1 in H.shape:\n")],
  'a scalar state observed by several sensors',
  'the gain of a scalar state with a vector measurement is computed element-wise',
  '''
from mfs.classical_filters_smoothers.gfs import kf
m, v, l = kf(jnp.eye(1), jnp.eye(1), jnp.array([[1.], [2.]]), jnp.eye(2), jnp.zeros(1), jnp.eye(1), jnp.array([[0.5, 0.7]]))
P = 1 / (1 / 2. + 5.)
close(v[0], [[P]]); close(m[0], [P * (0.5 + 1.4)])
''')

S('c18-state-cov0', 'C18',
  [(G, "vp = sgps.expectation(_vectorised_outer(evals_of_m, evals_of_m) + evals_of_cov) - jnp.outer(mp, mp)",
    "vp = sgps.expectation(_vectorised_outer(evals_of_m, evals_of_m)) - jnp.outer(mp, mp) \\\n         + vectorised_state_cond_m_cov(mf[None], dt)[1][0]")],
  'state noise whose covariance depends on the state, with the sigma-point filter or smoother',
  'the predicted covariance uses the noise at the mean, not its expectation',
  '''
from mfs.classical_filters_smoothers.gfs import sgp_filter
from mfs.classical_filters_smoothers.quadratures import SigmaPoints
s = SigmaPoints.gauss_hermite(1, 3)
r = sgp_filter(lambda x, dt: (x, jnp.diag(1. + x ** 2)), lambda x: (x, jnp.eye(1)), s, jnp.zeros(1), jnp.eye(1), 1., jnp.array([[0.5]]))
close(r[1][0], [[3 / 4]])
''')

S('c19-frozen-disp', 'C19',
  [(G, '''    def odes(m, v):
        return drift(m), v @ jac_of_drift(m).T + jac_of_drift(m) @ v + dispersion(m) @ dispersion(m).T

    def scan_body(carry, elem):
        mf, vf, n_ell = carry
        y = elem

        mp, vp = rk4_m_cov(odes, mf, vf, dt)''', '''    def scan_body(carry, elem):
        mf, vf, n_ell = carry
        y = elem

        gamma = dispersion(mf) @ dispersion(mf).T

        def odes(m, v):
            return drift(m), v @ jac_of_drift(m).T + jac_of_drift(m) @ v + gamma

        mp, vp = rk4_m_cov(odes, mf, vf, dt)''')],
  'a state-dependent dispersion in the continuous-discrete extended filter',
  'the dispersion is frozen at the start of the interval, the covariance is integrated to first order only',
  '''
from mfs.classical_filters_smoothers.gfs import cd_ekf
# dx = x dt + x dW, m(t) = e^t, P' = 2 P + m^2
def run(n):
    H = lambda x: (x * 0., jnp.eye(1))
    r = cd_ekf(lambda x: x, lambda x: x[:, None], H, jnp.ones(1), jnp.eye(1), 0.5 / n, jnp.zeros((n, 1)))
    return r[1][-1, 0, 0]
close(run(20), np.exp(1.) * 1.5, 1e-6)
''')

S('c19-rkback-stage', 'C19',
  [(CQ, "k4_m, k4_P = m_cov_ode(m + dt * k3_m, v + dt * k3_P, mf, vf)", "k4_m, k4_P = m_cov_ode(m + dt * k3_m / 2, v + dt * k3_P / 2, mf, vf)")],
  'comparing the smoothers with the exact backward equations at the accuracy of a Runge-Kutta step',
  'the backward integration has order one instead of four',
  '''
from mfs.classical_filters_smoothers.quadratures import rk4_m_cov_backward as r
m, v = r(lambda m, v, mf, vf: (m, 2 * v), jnp.ones(1), jnp.eye(1), jnp.zeros(1), jnp.eye(1), 0.1)
close(m, [np.exp(0.1)], 1e-6); close(v, [[np.exp(0.2)]], 1e-5)
''')

S('c19-G-transpose', 'C19',
  [(G, "return _m + G.T @ (m - mf), _P + G.T @ v + v @ G - 2 * gamma", "return _m + G @ (m - mf), _P + G @ v + v @ G.T - 2 * gamma")],
  'a state of dimension two or more whose noise covariance and filtering covariance do not commute',
  'the backward equations of the sigma-point smoother use the wrong gain',
  '''
from mfs.classical_filters_smoothers.gfs import cd_sgp_smoother, cd_eks
from mfs.classical_filters_smoothers.quadratures import SigmaPoints
A = jnp.array([[-1., 0.3], [0.2, -0.5]]); B = jnp.array([[1., 0.], [0.7, 0.2]])
ms = jnp.array([[0.1, 0.2], [0.5, -0.3]]); vs = jnp.array([[[1., 0.3], [0.3, 2.]], [[0.5, 0.1], [0.1, 1.5]]])
a = cd_sgp_smoother(lambda x: A @ x, B, SigmaPoints.gauss_hermite(2, 3), ms, vs, 0.1)
b = cd_eks(lambda x: A @ x, lambda x: B, ms, vs, 0.1)
close(a[0], b[0], 1e-7); close(a[1], b[1], 1e-7)
''')

S('c20-d3-table', 'C20',
  [(CQ, "            table[d - i - 1, :] = np.tile(base, (1, int(order ** i)))", "            table[i, :] = np.tile(base, (1, int(order ** i)))"),
   ],
  'nothing: the order of the coordinates in the product rule is immaterial for a product of identical rules',
  'nothing',
  '''
''')

S('c21-cont-unsorted', 'C21',
  [(RS, "xs, ws = samples[idx], weights[idx]", "xs, ws = samples[idx], weights")],
  'particles that are not sorted',
  'continuous resampling attaches the weights to the wrong particles',
  '''
from mfs.classical_filters_smoothers.resampling import continuous_resampling as c
x = jnp.array([3., 1., 2.]); w = jnp.array([0.7, 0.1, 0.2]); p = jnp.array([1, 2, 0]); k = jax.random.PRNGKey(0)
close(c(x, w, 50, k), c(x[p], w[p], 50, k))
''')

S('c21-cont-n', 'C21',
  [(RS, "z = (jax.random.uniform(key, (nsamples,)) + jnp.arange(nsamples)) / nsamples", "z = (jax.random.uniform(key, (nsamples,)) + jnp.arange(nsamples)) / samples.shape[0]")],
  'a number of requested samples that differs from the number of particles',
  'continuous resampling does not follow the weighted distribution function',
  '''
from mfs.classical_filters_smoothers.resampling import continuous_resampling as c
x = jnp.linspace(-1, 1, 200); w = jnp.ones(200) / 200
close(np.mean(np.asarray(c(x, w, 50, jax.random.PRNGKey(0)))), 0., atol=0.05)
''')

S('c21-strat-small', 'C21',
  [(RS, "    if is_systematic:\n", "    if is_systematic or n < 4:\n")],
  'stratified resampling of fewer than four particles over many keys (joint law)',
  'nothing a marginal law can see',
  '''
''')

S('c22-ess', 'C22',
  [(SM, '''            samples = samples[resampling(weights, _key), ...]

        return (samples, nell), samples''', '''            ess = 1. / jnp.sum(weights ** 2)
            inds = jnp.where(ess < 0.99 * nsamples, resampling(weights, _key), jnp.arange(nsamples))
            samples = samples[inds, ...]

        return (samples, nell), samples''')],
  'a weakly informative measurement',
  'the particles are returned unweighted and not resampled: the measurement is ignored',
  '''
from mfs.classical_filters_smoothers.smc import bootstrap_filter
calls = []
def res(w, k):
    return jnp.zeros(w.shape[0], dtype=int)
s, l = bootstrap_filter(lambda x, k: x, lambda y, x: 1. + 1e-3 * x[:, 0], jnp.zeros((2, 1)), lambda k, n: jnp.arange(n * 1.)[:, None], jax.random.PRNGKey(0), 5, res)
close(s[0], np.zeros((5, 1)))
''')

S('c22-shared-key', 'C22',
  [(SM, '''        _key, _ = jax.random.split(_key)
        if conti''', '''        if conti'''),
   (SM, '''        weights = weights / weights.sum()

        _key, _ = jax.random.split(_key)
        samples = samples[resampling''', '''        weights = weights / weights.sum()

        samples = samples[resampling''')],
  'the dependence between propagation and resampling',
  'propagation and resampling use the same random key',
  '''
from mfs.classical_filters_smoothers.smc import bootstrap_filter
seen = []
def tr(x, k):
    jax.debug.callback(lambda v: seen.append(('t', tuple(np.asarray(v)))), k); return x
def res(w, k):
    jax.debug.callback(lambda v: seen.append(('r', tuple(np.asarray(v)))), k); return jnp.arange(w.shape[0])
r = bootstrap_filter(tr, lambda y, x: 1. + 0 * x[:, 0], jnp.zeros((2, 1)), lambda k, n: jnp.zeros((n, 1)), jax.random.PRNGKey(0), 3, res)
jax.block_until_ready(r); jax.effects_barrier()
t = {k for a, k in seen if a == 't'}; q = {k for a, k in seen if a == 'r'}
assert t and q and not t & q, (t, q)
''')

S('c23-order-cap', 'C23',
  [(BF, "order = int(pred_method.split('-')[-1])", "order = min(int(pred_method.split('-')[-1]), 2)")],
  'chapman-tme-3 and above with a long step',
  'higher TME orders are silently those of order two',
  '''
from mfs.classical_filters_smoothers.brute_force import brute_force_filter as b
xs = jnp.linspace(-8, 8, 801); p0 = jnp.exp(-0.5 * xs ** 2 / 0.5) / jnp.sqrt(2 * jnp.pi * 0.5)
f, g = lambda x: -x, lambda x: 1. + 0. * x
r = b(f, g, lambda y, x: jnp.ones_like(x), p0, xs, jnp.zeros(1), 0.6, 1, 'chapman-tme-3')[0]
v = np.trapz(np.asarray(r) * np.asarray(xs) ** 2, np.asarray(xs))
import tme.base_jax as tme
m, c = tme.mean_and_cov(jnp.array([1.]), 0.6, f, g, order=3)
close(v, float(jnp.squeeze(m) ** 2 * 0.5 + jnp.squeeze(c)), 1e-4)
''')

S('c24-gc-var', 'C24',
  [(PD, "(math.factorial(j) * variance ** (j / 2))", "(math.factorial(j) * variance ** (j // 2) * (jnp.sqrt(variance) if j % 4 == 3 else (variance ** 0.5 if j == 1 else 1.)))")],
  'odd cumulants of order 5, 9, ... with a variance other than one',
  'the fifth and ninth moments of the series are wrong',
  '''
from mfs.one_dim.pdf_approximations import gram_charlier
k = jnp.array([0.2, 0.5, 0.05, 0.02, 0.03])
xs = np.linspace(-10, 10, 20001); p = np.asarray(gram_charlier(k)(jnp.array(xs)))
m5 = np.trapz(p * (xs - 0.2) ** 5, xs)
close(m5, 0.03 + 10 * 0.5 * 0.05, 1e-6)
''')

S('c25-log-floor', 'C25',
  [(PD, "    return z * mean + jnp.log(smgf)\n", "    return z * mean + jnp.log(jnp.maximum(smgf, 0.1))\n")],
  'an argument where the truncated moment generating function is small',
  'the truncated cumulant generating function saturates',
  '''
from mfs.one_dim.pdf_approximations import truncated_cumulant_generating_function as t
z = -0.999; ms = jnp.array([1., 1.])
close(t(z, ms), np.log(0.001), 1e-6)
''')

S('c26-squarings', 'C26',
  [(U, "AB = jax.scipy.linalg.expm(phi * dt) @", "AB = jax.scipy.linalg.expm(phi * dt, max_squarings=4) @")],
  'a long step or a stiff drift (norm of the block matrix times the step above about 80)',
  'the covariance is NaN for long steps',
  '''
from mfs.utils import discretise_lti_sde as d
F, Q = d(jnp.array([[-500., 1.], [0., -450.]]), jnp.eye(2) * 3., 0.5)
assert np.all(np.isfinite(np.asarray(Q)))
''')

S('c27-hermite', 'C27',
  [(U, "return x * hermite_probabilist(n - 1, x) - (n - 1) * hermite_probabilist(n - 2, x)",
    "return x * hermite_probabilist(n - 1, x) - np.float32(n - 1) / np.float32(3) * 3 * hermite_probabilist(n - 2, x)")],
  'orders for which (n - 1) / 3 is not exact in single precision',
  'Hermite polynomials are only accurate to single precision',
  '''
from mfs.utils import hermite_probabilist as h
x = 0.7
c = np.polynomial.hermite_e.hermeval(x, [0] * 8 + [1])
close(h(8, x), c, 1e-12)
''')

S('c29-meas-mean', 'C29',
  [(U, "htt_logpdf_likelihood(yt_mcs, xt_mcs), axis=0)", "htt_logpdf_likelihood(jnp.broadcast_to(jnp.mean(yt_mcs, axis=0), yt_mcs.shape), xt_mcs), axis=0)")],
  'a nonlinear measurement (the Hessian of the log-likelihood depends on the measurement)',
  'the information matrices use the average measurement',
  '''
from mfs.utils import posterior_cramer_rao as p
rng = np.random.RandomState(0); x = rng.randn(2, 50, 1); y = x[1:] ** 3 + 0.1 * rng.randn(1, 50, 1)
lt = lambda a, b: -0.5 * jnp.sum((a - b) ** 2); ll = lambda y, a: -0.5 * jnp.sum((y - a ** 3) ** 2)
j = p(jnp.array(x), jnp.array(y), jnp.eye(1), lt, ll)
d22 = np.mean(1 + 15 * x[1] ** 4 - 6 * x[1] * y[0]); close(j[0, 0, 0], d22 - 1 / 2, 1e-8)
''')

S('c30-ts', 'C30',
  [(S1, '''    T = 1000
    ts = jnp.linspace(dt, dt * T, T)''', '''    T = 1000
    ts = jnp.linspace(0., dt * T, T)''')],
  'reading the time grid of the Well-Poisson model',
  'the time grid does not have the stated step',
  '''
from mfs.one_dim.ss_models import well_poisson
dt, T, ts, *_ = well_poisson(3., 2)
close(ts, dt * np.arange(1, T + 1), 1e-9)
''')

S('c30-start-mean', 'C30',
  [(SN, "_, xs = jax.lax.scan(scan_body, x0, ddws)", "_, xs = jax.lax.scan(scan_body, gs.mean, ddws)")],
  'comparing the returned initial state with the first simulated states',
  'trajectories of the prey-predator model start from the mean, not from the drawn initial state',
  '''
from mfs.multi_dims.ss_models import prey_predator
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gen
s = prey_predator(gen(2, 3))[-1]
d = np.array([np.asarray(s(jax.random.PRNGKey(k), 1)[1][0] - s(jax.random.PRNGKey(k), 1)[0]) for k in range(6)])
assert np.abs(d).max() < 0.02, d
''')

S('c30-ys-coord', 'C30',
  [(SN, "emission(xs[:, 0]), (T,))", "emission(xs[:, -1]), (T,))")],
  'comparing simulated measurements with the stated measurement probabilities',
  'measurements are simulated from the second coordinate while the measurement probability uses the first',
  '''
from mfs.multi_dims.ss_models import prey_predator
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gen
m = prey_predator(gen(2, 3)); z = 0.; v = 0.
for k in range(12):
    x0, xs, ys = m[-1](jax.random.PRNGKey(k), 2)
    p = np.asarray(m[6](xs)); z += np.sum((np.asarray(ys) - p[:, 0]) * (p[:, 0] - p[:, 1])); v += np.sum(p[:, 0] * (1 - p[:, 0]) * (p[:, 0] - p[:, 1]) ** 2)
assert abs(z) / np.sqrt(v) < 6, z / np.sqrt(v)
''')

S('c30-diag', 'C30',
  [(U, "x = m + jnp.sqrt(cov) @ normal_inc", "x = m + jnp.sqrt(jnp.diagonal(cov)) * normal_inc[::-1]")],
  'nothing: the coordinates of the noise are exchangeable',
  'nothing',
  '''
''')
