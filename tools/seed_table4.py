"""Fourth wave of planted bugs: broken derivatives and transformations, tail likelihoods, unit-dependent guards, general square roots."""
from seed_table import S, Q1, F1, M1, PD, S1, QN, FN, MN, MI, SN, G, CQ, RS, SM, BF, U

S('e07-neg-disp', 'C07',
  [(M1, "return x + drift(x) * dt, dispersion(x) ** 2 * dt", "return x + drift(x) * dt, dispersion(x) * jnp.maximum(dispersion(x), 0.) * dt")],
  'the Euler construction and a dispersion that is negative somewhere',
  'the variance function disagrees with the second moment',
  '''
from mfs.one_dim.moments import sde_cond_moments_euler
r = sde_cond_moments_euler(lambda x: -x, lambda x: jnp.sin(x), 0.1, 2)
x = jnp.array([-1., 1.])
close(r[4](x)[1], np.sin(1.) ** 2 * 0.1 * np.ones(2), 1e-12)
''')

S('e20-tril-root', 'C20',
  [(CQ, "return m + jnp.einsum('ij,...j->...i', chol_of_v, self.xi)", "return m + jnp.einsum('ij,...j->...i', jnp.tril(chol_of_v), self.xi)")],
  'a square root of the covariance that is not lower triangular',
  'the sigma points belong to another covariance',
  '''
from mfs.classical_filters_smoothers.quadratures import SigmaPoints
s = SigmaPoints.cubature(2); R = np.array([[1., 0.5], [0.25, 2.]])
x = np.asarray(s.gen_sigma_points(jnp.zeros(2), jnp.asarray(R)))
close(x.T @ x / 4, R @ R.T, 1e-9)
''')

S('e22-log-floor', 'C22',
  [(SM, "nell -= jnp.log(jnp.mean(weights))", "nell -= jnp.log(jnp.mean(weights) + 1e-20)")],
  'a measurement far in the tails of every particle (or densities in small units)',
  'the likelihood estimate saturates',
  '''
from mfs.classical_filters_smoothers.smc import bootstrap_filter
from mfs.classical_filters_smoothers.resampling import systematic
f = lambda c: float(bootstrap_filter(lambda x, k: x, lambda y, x: c * jnp.exp(-(y - x) ** 2), jnp.zeros(2), lambda k, n: jax.random.normal(k, (n,)), jax.random.PRNGKey(0), 50, systematic)[1])
close(f(1e-30) - f(1.), 2 * 30 * np.log(10.), 1e-6)
''')

S('e22-sum-eps', 'C22',
  [(SM, '''        weights = weights / weights.sum()

        _key, _ = jax.random.split(_key)
        if conti_resampling:''', '''        weights = weights / (weights.sum() + 1e-16)

        _key, _ = jax.random.split(_key)
        if conti_resampling:''')],
  'likelihood values that are tiny for all particles',
  'the weights handed to the resampler do not sum to one',
  '''
from mfs.classical_filters_smoothers.smc import bootstrap_filter
from mfs.classical_filters_smoothers.resampling import systematic
f = lambda c: np.asarray(bootstrap_filter(lambda x, k: x, lambda y, x: c * jnp.exp(-(y - x) ** 2), jnp.zeros(2), lambda k, n: jax.random.normal(k, (n,)), jax.random.PRNGKey(0), 50, systematic)[0])
close(f(1e-18), f(1.), 1e-6)
''')

S('e28-beta-eps', 'C28',
  [(U, "v = w / beta", "v = w / (beta + 1e-12)")],
  'a matrix with small entries',
  'the Lanczos basis is not orthonormal',
  '''
from mfs.utils import lanczos
A = np.array([[2., 1., 0.5], [1., 3., 0.25], [0.5, 0.25, 1.]]) * 1e-9
V, a, b = lanczos(jnp.asarray(A), jnp.array([1., 0., 0.]), 3)
close(np.asarray(V).T @ np.asarray(V), np.eye(3), 1e-6)
''')

S('e29-jitter', 'C29',
  [(U, "jnp.linalg.solve(j + d11, d12)", "jnp.linalg.solve(j + d11 + 1e-8 * jnp.eye(j.shape[0]), d12)")],
  'states measured in large units (information matrices with small entries)',
  'the information recursion is regularised by an absolute constant',
  '''
from mfs.utils import posterior_cramer_rao as pcrb
s = 1e8
lt = lambda x, z: -0.5 * jnp.sum((x - 0.5 * z) ** 2) / s; ly = lambda y, x: -0.5 * jnp.sum((y - x) ** 2) / s
js = pcrb(jnp.zeros((3, 2, 2)), jnp.zeros((2, 2, 2)), jnp.eye(2) / s, lt, ly)
P = np.eye(2) * s
for k in range(2):
    P = np.linalg.inv(np.linalg.inv(0.25 * P + s * np.eye(2)) + np.eye(2) / s)
    close(np.asarray(js[k]) * s, np.linalg.inv(P) * s, 1e-6)
''')

S('e31-gc-stop', 'C31',
  [(PD, "    variance = cumulants[1]\n", "    variance = jax.lax.stop_gradient(cumulants[1])\n")],
  'a derivative of the Gram-Charlier density in its variance',
  'the density is right but its derivative is not',
  '''
from mfs.one_dim.pdf_approximations import gram_charlier
f = lambda v: gram_charlier(jnp.stack([0.3, v, 0.1]))(jnp.array([0.7]))[0]
close(jax.grad(f)(1.2), (f(1.2 + 1e-5) - f(1.2 - 1e-5)) / 2e-5, 1e-6)
''')

S('e31-smoother-gain', 'C31',
  [(G, "G = jax.scipy.linalg.cho_solve((c, low), DT).T", "G = jax.lax.stop_gradient(jax.scipy.linalg.cho_solve((c, low), DT)).T")],
  'a derivative of a smoother in the model or the filtering result',
  'smoothed values are right but their derivatives are not',
  '''
from mfs.classical_filters_smoothers.gfs import rts
f = lambda a: jnp.sum(rts(a * jnp.eye(1), jnp.eye(1), jnp.array([[1.], [2.]]), jnp.array([[[1.]], [[0.5]]]))[0])
close(jax.grad(f)(0.8), (f(0.8 + 1e-5) - f(0.8 - 1e-5)) / 2e-5, 1e-6)
''')

S('e31-power-nan', 'C31',
  [(M1, "math.comb(p, m) * mean ** m *", "math.comb(p, m) * jnp.power(mean, float(m)) *")],
  'a derivative in the mean of a Normal of mean zero',
  'moments are right but their derivative is not a number',
  '''
from mfs.one_dim.moments import raw_moment_of_normal
close(jax.grad(lambda m: raw_moment_of_normal(m, 1.5, 3))(0.), 3 * 1.5, 1e-9)
''')

S('e31-expect-host', 'C31',
  [(CQ, '''    @partial(jax.vmap, in_axes=[0, 0])
    def approximate(m, chol):''', '''    ms, chol_vs = np.asarray(ms), np.asarray(chol_vs)

    @partial(jax.vmap, in_axes=[0, 0])
    def approximate(m, chol):''')],
  'the expectation inside a compiled or differentiated program',
  'batched Gaussian expectations cannot be compiled, batched or differentiated any more',
  '''
from mfs.classical_filters_smoothers.quadratures import gaussian_expectation
f = lambda m: gaussian_expectation(m * jnp.ones((2, 1)), jnp.ones((2, 1, 1)), lambda x: x[..., 0] ** 2, d=1, order=4)
close(jax.jit(f)(0.5), 1.25 * np.ones(2), 1e-9)
''')

S('e31-ritz-stop', 'C31',
  [(U, "norm = jnp.linalg.norm(v0)", "norm = jax.lax.stop_gradient(jnp.linalg.norm(v0))")],
  'a derivative of the Ritz pairs in the start vector',
  'derivatives miss the normalisation of the start vector',
  '''
from mfs.utils import lanczos_ritz
A = jnp.array([[2., 1., 0.5], [1., 3., 0.25], [0.5, 0.25, 1.]])
def f(s):
    u, t = lanczos_ritz(A, jnp.array([1., s, 0.5]), 3)
    return (u @ jnp.sin(t))[0]
close(jax.grad(f)(0.3), (f(0.3 + 1e-5) - f(0.3 - 1e-5)) / 2e-5, 1e-6)
''')

S('e31-cov-detach', 'C31',
  [(U, "normal_increments = jax.random.normal(key=key, shape=(T, integration_steps, d))",
    "normal_increments, x0 = jax.random.normal(key=key, shape=(T, integration_steps, d)), jax.lax.stop_gradient(x0)")],
  'a derivative of a simulated path in its initial state',
  'the path does not depend on its initial state as far as derivatives are concerned',
  '''
from mfs.utils import simulate_sde
f = lambda x: jnp.sum(simulate_sde(lambda x, h: (x - h * jnp.sin(x), h * jnp.eye(1)), x * jnp.ones(1), 0.1, 3, jax.random.PRNGKey(0)))
close(jax.grad(f)(0.8), (f(0.8 + 1e-5) - f(0.8 - 1e-5)) / 2e-5, 1e-6)
''')

S('e14-floor', 'C14',
  [(FN, '''        mean = jnp.einsum('ij,i->j', unnormalised_posterior_moment_integrand(y, nodes, _mean_multi_indices, 0.),
                          weights) / pdf_y
''', '''        pdf_y = pdf_y + 1e-18
        mean = jnp.einsum('ij,i->j', unnormalised_posterior_moment_integrand(y, nodes, _mean_multi_indices, 0.),
                          weights) / pdf_y
''')],
  'the central ND filter and a measurement density with tiny values (tails, many measurements at once, small units)',
  'posterior moments and likelihood are biased by an absolute constant',
  '''
from mfs.multi_dims.filtering import moment_filter_nd_cms
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gen, gram_and_hankel_indices_graded_lexico as tab
mi = gen(2, 3); cms0 = jnp.array([1., 0., 0., 1., 0., 1., 0., 0., 0., 0.])
def f(c):
    fn = lambda x, n, m: jax.vmap(lambda u: jax.vmap(lambda k: jnp.prod((u - m) ** k))(n))(x)
    return moment_filter_nd_cms((fn, 'multi-index'), lambda x: x, lambda y, x: c * jnp.exp(-jnp.sum((y - x) ** 2)), jnp.ones((1, 2)), (jnp.asarray(mi), tab(2, 2)), cms0, jnp.zeros(2))
close(f(1e-20)[1], f(1.)[1], 1e-9)
''')

S('e23-eps', 'C23',
  [(BF, "/ jnp.trapz(measurement_cond_pdf(y, xs) * ps, xs)", "/ (jnp.trapz(measurement_cond_pdf(y, xs) * ps, xs) + 1e-16)")],
  'a measurement far in the tails, or a density in small units',
  'the filtering density does not integrate to one',
  '''
from mfs.classical_filters_smoothers.brute_force import brute_force_filter
xs = jnp.linspace(-5., 5., 201); p0 = jnp.exp(-xs ** 2 / 2) / np.sqrt(2 * np.pi)
p = brute_force_filter(lambda x: -x, lambda x: 1. + 0. * x, lambda y, x: 1e-18 * jnp.exp(-(y - x) ** 2), p0, xs, jnp.zeros(2), 0.1, 2, 'chapman-euler')
close(jnp.trapz(p[-1], xs), 1., 1e-9)
''')
