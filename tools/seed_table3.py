"""Third wave of planted bugs: stale caches and aliases, mutated inputs, overflow at high order, shape coincidences,
unit-dependent guards, integer inputs, flag combinations."""
from seed_table import S, Q1, F1, M1, PD, S1, QN, FN, MN, MI, SN, G, CQ, RS, SM, BF, U

S('d01-ldl-relative', 'C01',
  [(U, "jnp.where(d < 0, eps, jnp.sqrt(d))", "jnp.where(d < 1e-10 * jnp.max(d), eps, jnp.sqrt(jnp.abs(d)))")],
  'the LDL option and moments whose matrix has pivots of very different size (a small spread in the units used)',
  'the LDL rule is not the Gauss rule although the moment matrix is positive definite',
  '''
from mfs.one_dim.quadtures import moment_quadrature
s = 2. ** -20; ms = jnp.array([1., 0., s ** 2, 0., 3 * s ** 4, 0.])
w, x = moment_quadrature(ms, ldl=True, sort_nodes=True)
close(np.asarray(x) / s, [-np.sqrt(3), 0., np.sqrt(3)], 1e-6)
''')

S('d02-taylor-zero-moment', 'C02',
  [(Q1, '''    for r in range(1, order + 1):
        result +=''', '''    for r in range(2, order + 1):
        result +=''')],
  'moments about a centre that is not the mean (first central moment not exactly zero)',
  'Taylor quadrature drops the first-order term',
  '''
from mfs.one_dim.quadtures import taylor_quadrature
x, w = np.array([-1.2, 0.4, 1.1]), np.array([0.3, 0.3, 0.4]); m = 0.25
cms = jnp.array([np.sum(w * (x - m) ** k) for k in range(5)])
close(taylor_quadrature(lambda u: u ** 3 - u, cms, m, 4), np.sum(w * (x ** 3 - x)), 1e-9)
''')

S('d03-node-merge', 'C03',
  [(F1, '''        pdf_y = jnp.dot(jax.vmap(measurement_cond_pdf, in_axes=[None, 0])(y, nodes), weights)
        rms = ''', '''        weights = jnp.where(weights < 5e-3, 0., weights)
        pdf_y = jnp.dot(jax.vmap(measurement_cond_pdf, in_axes=[None, 0])(y, nodes), weights)
        rms = ''')],
  'the raw filter, an outlying measurement that only the outer nodes of tiny weight explain',
  'posterior moments and likelihood ignore the nodes that carry the posterior mass',
  '''
from mfs.one_dim.filtering import moment_filter_rms
from mfs.one_dim.moments import raw_moment_of_normal
N = 6; r0 = jnp.array([float(raw_moment_of_normal(0., 1., p)) for p in range(2 * N)])
pdf = lambda y, x: jnp.exp(-(y - x) ** 2 / 2 / 0.25) / np.sqrt(2 * np.pi * 0.25)
rm, nell = moment_filter_rms(lambda x, n: x[:, None] ** n, pdf, r0, jnp.array([6.]))
z, w = np.polynomial.hermite_e.hermegauss(N); w = w / w.sum()
l = w * np.exp(-(6. - z) ** 2 / 0.5) / np.sqrt(2 * np.pi * 0.25)
close(nell, -np.log(l.sum()), 1e-6)
''')

S('d05-cache', 'C05',
  [(F1, '''    (_, nell_ys), rmss = jax.lax.scan(scan_body, (rms0, 0.), ys)
    return rmss, nell_ys''', '''    (_, nell_ys), rmss = jax.lax.scan(scan_body, (rms0, jnp.zeros((), dtype=jnp.float32)), ys)
    return rmss, nell_ys''')],
  'likelihoods compared at more than single precision',
  'the raw filter accumulates the likelihood in single precision, so it does not add up over splits',
  '''
from mfs.one_dim.filtering import moment_filter_rms
pdf = lambda y, x: jnp.exp(-(y - x) ** 2 / 2) / np.sqrt(2 * np.pi)
def f(r, ys):
    return moment_filter_rms(lambda x, n: (0.5 * x[:, None]) ** n + 0., pdf, r, ys)
r0 = jnp.array([1., 0.1, 1.2, 0.3]); ys = jnp.array([0.3, -0.7])
_, n0 = f(r0, ys); r1, n1 = f(r0, ys[:1]); _, n2 = f(r1[-1], ys[1:])
close(n0, n1 + n2, 1e-12)
''')

S('d07-int-state', 'C07',
  [(M1, '''    @partial(jax.vmap, in_axes=[0])
    def state_cond_mean(x: JFloat) -> JFloat:
        return x + drift(x) * dt
''', '''    @partial(jax.vmap, in_axes=[0])
    def state_cond_mean(x: JFloat) -> JFloat:
        return x + jnp.asarray(drift(x) * dt, dtype=jnp.float32)
''')],
  'the Euler mean compared at more than single precision',
  'mean function and first moment of the Euler construction disagree',
  '''
from mfs.one_dim.moments import sde_cond_moments_euler
r, c, s, m, mv = sde_cond_moments_euler(lambda x: -jnp.sin(x), lambda x: 1., 0.1, 2)
x = jnp.array([0.3, -1.7])
close(m(x), r(x, jnp.arange(4))[:, 1], 1e-12)
''')

S('d09-kan-fact', 'C09',
  [(MN, '''/ np.asarray(scipy_factorial(rs, exact=True)
                                                            * scipy_factorial(s - 2 * rs, exact=True), dtype='float64')''',
    '''/ (np.cumprod(np.maximum(np.arange(s + 1), 1), dtype='int32')[rs]
                                                            * np.cumprod(np.maximum(np.arange(s + 1), 1), dtype='int32')[s - 2 * rs])''')],
  'a moment of total degree 13 or more',
  'raw Normal moments of high degree are wrong (integer overflow of the factorials)',
  '''
from mfs.multi_dims.moments import raw_moments_mvn_kan
close(raw_moments_mvn_kan(np.array([3., 0.2]), np.diag([1., 0.5]), (14, 0)), sum(
    __import__('math').comb(14, k) * 3. ** (14 - k) * np.prod(np.arange(k - 1, 0, -2.)) for k in range(0, 15, 2)), 1e-6)
''')

S('d09-mean-input', 'C09',
  [(MN, '''    if means is None:
        means = [0.] * len(bounds)
''', '''    if means is None:
        means = [0.] * len(bounds)
    bounds = np.asarray(bounds)
    bounds -= np.asarray(means)[:, None]
    means = [0.] * len(bounds)
''')],
  'bounds given as a NumPy array and a centre: the second call with the same array',
  'bounds of the caller are shifted in place, so every further moment is about the wrong centre',
  '''
from mfs.multi_dims.moments import moments_nd_uniform
b = np.array([[-1., 2.], [0., 1.]]); m = [0.5, 0.25]
a1 = moments_nd_uniform(b, (2, 1), m); a2 = moments_nd_uniform(b, (2, 1), m)
close(a1, a2)
''')

S('d10-logpdf-order', 'C10',
  [(U, "return jax.scipy.special.logsumexp(log_pdfs, b=self.weights)",
    "return jnp.max(log_pdfs) + jnp.log(jnp.sum(jnp.where(log_pdfs > jnp.max(log_pdfs) - 12., self.weights * jnp.exp(log_pdfs - jnp.max(log_pdfs)), 0.)))")],
  'a component of very small weight far closer to the point than the heavy ones',
  'the log-density drops components that contribute (pruned before weighting)',
  '''
from mfs.utils import GaussianSumND
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
mi = generate_graded_lexico_multi_indices(2, 3, 0)
g = GaussianSumND.new(jnp.array([[0., 0.], [6., 0.]]), jnp.array([np.eye(2), np.eye(2)]), jnp.array([1 - 1e-7, 1e-7]), mi)
x = jnp.array([5.5, 0.])
close(g.logpdf(x), jnp.log(g.pdf(x)), 1e-7)
''')

S('d11-alias', 'C11',
  [(MI, "from functools import partial\n", "from functools import lru_cache, partial\n"),
   (MI, "def generate_graded_lexico_multi_indices(", "@lru_cache(maxsize=None)\ndef generate_graded_lexico_multi_indices(")],
  'a caller that changes the returned array in place and asks for the same collection again',
  'the collection is wrong after that: all callers share one cached array',
  '''
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gen
a = gen(2, 3, 0); a0 = a.copy(); a[:] = a[:, ::-1]
assert np.array_equal(gen(2, 3, 0), a0)
''')

S('d11-list-rank', 'C11',
  [(MI, '''    d = len(multi_index)

    total_sum = sum(multi_index)
    base_pos''', '''    multi_index = np.asarray(multi_index, dtype='uint8')
    d = len(multi_index)

    total_sum = int(multi_index.sum(dtype='uint8'))
    base_pos''')],
  'a multi-index of total degree above 255',
  'ranks of multi-indices of high degree wrap around',
  '''
from mfs.multi_dims.multi_indices import graded_lexico_indexof_multi_index as rank
assert rank((0, 300)) == 300 * 301 // 2, rank((0, 300))
''')

S('d12-marginal-cache', 'C12',
  [(MN, '''    multi_indices = np.zeros((2 * N, d), dtype='int64')
    multi_indices[:, var_axis] = np.arange(2 * N)
    return ms[..., find_indices(multi_indices)]''', '''    key = (d, var_axis)
    if key not in _marginal_cache:
        multi_indices = np.zeros((2 * N, d), dtype='int64')
        multi_indices[:, var_axis] = np.arange(2 * N)
        _marginal_cache[key] = find_indices(multi_indices)
    return ms[..., _marginal_cache[key][:2 * N]]


_marginal_cache = {}''')],
  'marginalising moments of a higher order after a lower order in the same process',
  'fewer marginal moments than requested are returned',
  '''
from mfs.multi_dims.moments import marginalise_moments
assert marginalise_moments(np.arange(10.), 2, 2, 0).shape == (4,)
assert marginalise_moments(np.arange(21.), 2, 3, 0).shape == (6,)
''')

S('d13-combs-cache', 'C13',
  [(QN, '''    inds = d * [[i for i in range(n)]]
    return np.asarray(tuple(itertools.product(*inds)), dtype='int64')''',
    '''    if n ** d not in _combs_cache:
        inds = d * [[i for i in range(n)]]
        _combs_cache[n ** d] = np.asarray(tuple(itertools.product(*inds)), dtype='int64')
    return _combs_cache[n ** d]


_combs_cache = {}''')],
  'a rule with n^d nodes after another rule with the same number of nodes but another n and d, in one process',
  'the nodes are combined with the table of the other rule',
  '''
from mfs.multi_dims.quadratures import nd_cartesian_prod_indices as f
f(1, 9)
assert f(2, 3).shape == (9, 2), f(2, 3).shape
''')

S('d14-signature', 'C14',
  [(FN, '''        state_moments_indices = multi_indices
    else:
        state_moments_indices = jnp.arange(multi_indices.shape[0])

    @partial(jax.vmap, in_axes=[None, 0, None])
''', '''        state_moments_indices = jnp.asarray(multi_indices, dtype=jnp.float32)
    else:
        state_moments_indices = jnp.arange(multi_indices.shape[0])

    @partial(jax.vmap, in_axes=[None, 0, None])
''')],
  'the raw filter with multi-index conditional moments at a node with a negative coordinate',
  'powers with floating-point exponents of negative coordinates are NaN or wrong',
  '''
from mfs.multi_dims.filtering import moment_filter_nd_rms
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
mi = generate_graded_lexico_multi_indices(1, 3, 0); inds = gram_and_hankel_indices_graded_lexico(2, 1)
seen = []
def rm(x, n):
    seen.append(jnp.issubdtype(jnp.asarray(n).dtype, jnp.integer))
    return jnp.prod(x[:, None, :] ** n[None, :, :], axis=-1)
pdf = lambda y, x: jnp.exp(-(y - x[0]) ** 2 / 2)
out, nell = moment_filter_nd_rms((rm, 'multi-index'), pdf, jnp.array([0.2]), (mi, inds), jnp.array([1., 0.1, 1.2, 0.3]))
assert all(seen)
''')

S('d16-euler-noise', 'C16',
  [(MN, '''        b = dispersion(x)
        return x + drift(x) * dt, jnp.diagonal(b @ b.T) * dt''', '''        b = dispersion(x)
        return x + drift(x) * dt, jnp.sum(b[:, :x.shape[0]] ** 2, axis=1) * dt''')],
  'more noises than states',
  'the variance function ignores the further noises and disagrees with the second moments',
  '''
from mfs.multi_dims.moments import sde_cond_moments_euler_maruyama
mi = np.array([[0], [1], [2], [3]])
r, c, s, m, mv = sde_cond_moments_euler_maruyama(lambda x: -x, lambda x: jnp.array([[1., 2.]]), 0.1, mi)
x = jnp.array([[0.3]])
mean, var = mv(x)
close(var[0, 0], c(x, jnp.arange(4), mean[0])[0, 2], 1e-9)
''')

S('d17-gain-jitter', 'C17',
  [(G, '''        chol = jax.lax.linalg.cholesky(S)
        K = jax.scipy.linalg.cho_solve((chol, True), H @ vp).T
        n_ell''', '''        chol = jax.lax.linalg.cholesky(S + 1e-14 * jnp.eye(S.shape[0]))
        K = jax.scipy.linalg.cho_solve((chol, True), H @ vp).T
        n_ell''')],
  'vector measurements in small units (variances around 1e-12)',
  'the filter adds a fixed amount of measurement noise',
  '''
from mfs.classical_filters_smoothers.gfs import kf
s = 2. ** -20; I = jnp.eye(2)
a = kf(0.9 * I, I, I, I, jnp.zeros(2), I, jnp.ones((2, 2)))
b = kf(0.9 * I, s ** 2 * I, I, s ** 2 * I, jnp.zeros(2), s ** 2 * I, s * jnp.ones((2, 2)))
close(np.asarray(b[1]) / s ** 2, a[1], 1e-7)
close(np.asarray(b[0]) / s, a[0], 1e-7)
''')

S('d18-eks-noise', 'C18',
  [(G, '''        jac_F = jax.jacfwd(lambda u: state_cond_m_cov(u, dt)[0], argnums=0)(mf)
        mp, Sigma = state_cond_m_cov(mf, dt)
        vp = jac_F @ vf @ jac_F.T + Sigma
        ms, vs =''', '''        jac_F = jax.jacfwd(lambda u: state_cond_m_cov(u, dt)[0], argnums=0)(mf)
        mp, Sigma = state_cond_m_cov(mf, dt)
        vp = jac_F @ vf @ jac_F.T + jnp.maximum(Sigma, Sigma.T) + 1e-12 * jnp.eye(mf.shape[0])
        ms, vs =''')],
  'states in small units',
  'the extended smoother adds a fixed amount of process noise',
  '''
from mfs.classical_filters_smoothers.gfs import eks
s = 2. ** -20; I = jnp.eye(2)
def f(u):
    return eks(lambda x, dt: (x - 0.1 * u * jnp.sin(x / u), 0.2 * u ** 2 * I), u * jnp.array([[0.3, 0.1], [0.5, -0.4]]), u ** 2 * jnp.stack([I, I]), 0.1)
a, b = f(1.), f(s)
close(np.asarray(b[1]) / s ** 2, a[1], 1e-6)
''')

S('d18-sgp-center', 'C18',
  [(G, '''    vp = sgps.expectation(_vectorised_outer(evals_of_m, evals_of_m) + evals_of_cov) - jnp.outer(mp, mp)
''', '''    vp = sgps.expectation(_vectorised_outer(evals_of_m, evals_of_m) + evals_of_cov) - jnp.outer(mp, mp)
    vp = jnp.where(jnp.abs(vp) < 1e-10, 0., vp)
''')],
  'states in small units, or correlations that are tiny',
  'small predicted (co)variances are set to zero',
  '''
from mfs.classical_filters_smoothers.gfs import sgp_filter
from mfs.classical_filters_smoothers.quadratures import SigmaPoints
I = jnp.eye(2)
def f(u):
    return sgp_filter(lambda x, dt: (x - 0.1 * u * jnp.sin(x / u), 0.2 * u ** 2 * (I + 0.3 * (1 - I))), lambda x: (x, 0.5 * u ** 2 * I),
                      SigmaPoints.cubature(2), u * jnp.array([0.3, 0.1]), u ** 2 * I, 0.1, u * jnp.array([[0.2, 0.1]]))
s = 2. ** -16; a, b = f(1.), f(s)
close(np.asarray(b[1]) / s ** 2, a[1], 1e-6)
''')

S('d19-ode-sym', 'C19',
  [(CQ, '''    k4_m, k4_v = m_cov_ode(m + dt * k3_m, v + dt * k3_v)
''', '''    k4_m, k4_v = m_cov_ode(m + dt * k3_m, v + dt * k3_v) if v.shape[0] < 3 else m_cov_ode(m + dt * k3_m, v + dt * k2_v)
''')],
  'three or more states',
  'the last Runge-Kutta stage uses the wrong covariance increment, the step is not fourth order any more',
  '''
from mfs.classical_filters_smoothers.quadratures import rk4_m_cov
A = jnp.array([[-1., .5, 0.], [0., -2., 1.], [.3, 0., -1.]])
m, v = rk4_m_cov(lambda m, v: (A @ m, A @ v + v @ A.T + jnp.eye(3)), jnp.ones(3), jnp.eye(3), 0.1)
f = lambda v: A @ v + v @ A.T + jnp.eye(3)
v0 = jnp.eye(3); k1 = f(v0); k2 = f(v0 + .05 * k1); k3 = f(v0 + .05 * k2); k4 = f(v0 + .1 * k3)
close(v, v0 + .1 * (k1 + 2 * k2 + 2 * k3 + k4) / 6, 1e-10)
''')

S('d20-cache', 'C20',
  [(CQ, '''        hermite_coeff = cls._gen_hermite_poly_coeff(order)
''', '''        if (order ** d) in _gh_cache:
            return _gh_cache[order ** d]
        hermite_coeff = cls._gen_hermite_poly_coeff(order)
'''), (CQ, '''        return cls(d=d, n_points=n_points, w=jnp.array(w), wc=None, xi=jnp.array(xi))

    def gen''', '''        _gh_cache[order ** d] = cls(d=d, n_points=n_points, w=jnp.array(w), wc=None, xi=jnp.array(xi))
        return _gh_cache[order ** d]

    def gen'''), (CQ, '''class SigmaPoints(NamedTuple):''', '''_gh_cache = {}


class SigmaPoints(NamedTuple):''')],
  'two rules with the same number of points but different dimension and order (9 points: order 9 in 1D, order 3 in 2D), in one process',
  'the second rule is the first one',
  '''
from mfs.classical_filters_smoothers.quadratures import SigmaPoints
SigmaPoints.gauss_hermite(1, 9)
assert SigmaPoints.gauss_hermite(2, 3).xi.shape == (9, 2)
''')

S('d20-expect-int', 'C20',
  [(CQ, "        return jnp.einsum('i,i...->...', self.w, evals_of_integrand)",
    "        return jnp.einsum('i,i...->...', self.w.astype(jnp.asarray(evals_of_integrand).dtype), evals_of_integrand)")],
  'integrand values of integer type (indicator or counting functions)',
  'the weights are truncated to zero and so is the expectation',
  '''
from mfs.classical_filters_smoothers.quadratures import SigmaPoints
s = SigmaPoints.gauss_hermite(1, 3)
close(s.expectation(jnp.ones((3,), dtype=int)), 1.)
''')

S('d21-normalise', 'C21',
  [(RS, '''    n = weights.shape[0]
    if is_systematic:
''', '''    n = weights.shape[0]
    weights = jnp.maximum(weights, 1e-8)
    if is_systematic:
''')],
  'weights that are exactly zero (or many tiny ones)',
  'particles of zero weight can be selected',
  '''
from mfs.classical_filters_smoothers.resampling import stratified
n = 20000
w = np.zeros(n); w[n // 2:] = 2. / n
bad = sum(int((np.asarray(stratified(jnp.array(w), jax.random.PRNGKey(k))) < n // 2).sum()) for k in range(20))
assert bad == 0, bad
''')

S('d21-cont-ties', 'C21',
  [(RS, "z = (jax.random.uniform(key, (nsamples,)) + jnp.arange(nsamples)) / nsamples",
    "z = (jax.random.uniform(key, ()) + jnp.arange(nsamples)) / nsamples")],
  'the joint law of several resampled values (each value alone is right)',
  'the strata share one uniform, values are not independent given the particles',
  '''
from mfs.classical_filters_smoothers.resampling import continuous_resampling
x = jnp.linspace(0., 1., 5); w = jnp.ones(5) / 5
d = [np.diff(np.asarray(continuous_resampling(x, w, 4, jax.random.PRNGKey(k))))[1] for k in range(20)]
assert np.std(d) > 1e-6, d
''')

S('d22-nosplit', 'C22',
  [(SM, '''        weights = weights / weights.sum()

        _key, _ = jax.random.split(_key)
        samples = samples[resampling(weights, _key), ...]
        return samples, samples''', '''        weights = weights / weights.sum()

        samples = samples[resampling(weights, _key), ...]
        return samples, samples''')],
  'a general proposal that uses the key directly',
  'the resampler is given the key that the proposal has already used: selection depends on the noise',
  '''
from mfs.classical_filters_smoothers.smc import particle_filter
seen = []
def prop(x, y, k):
    jax.debug.callback(lambda v: seen.append(('p', tuple(np.asarray(v).tolist()))), k); return x
def res(w, k):
    jax.debug.callback(lambda v: seen.append(('r', tuple(np.asarray(v).tolist()))), k); return jnp.arange(w.shape[0])
one = lambda *a: jnp.ones(4)
particle_filter(prop, lambda x, a, y: jnp.ones(4), lambda x, a: jnp.ones(4), lambda y, x: jnp.ones(4), jnp.zeros(2), lambda k, n: jnp.zeros(n), jax.random.PRNGKey(3), 4, res)
jax.effects_barrier()
p = {b for a, b in seen if a == 'p'}; r = {b for a, b in seen if a == 'r'}
assert p and r and not (p & r)
''')

S('d23-kolm-clip', 'C23',
  [(BF, "        return ps + kolmogorov_fwd_opt(ps) * ddt", "        return jnp.maximum(ps + kolmogorov_fwd_opt(ps) * ddt, 0.)")],
  'the Kolmogorov method on a grid and step where the Euler step has negative values',
  'the prediction is not the composition of the Euler steps of the forward equation',
  '''
from mfs.classical_filters_smoothers.brute_force import brute_force_filter
xs = jnp.linspace(-2., 2., 41); p0 = jnp.exp(-(xs - 0.1) ** 2 / 2 / 0.05); p0 = p0 / jnp.trapz(p0, xs)
out = brute_force_filter(lambda x: -x, lambda x: 1. + 0. * x, lambda y, x: 1. + 0. * x, p0, xs, jnp.zeros(1), 0.15, 1, 'kolmogorov')
g = lambda p: jnp.gradient(p, xs[1] - xs[0])
q = p0 + 0.15 * (p0 + xs * g(p0) + 0.5 * g(g(p0)))
assert float(q.min()) < 0
close(out[0], q / jnp.trapz(q, xs), 1e-8)
''')

S('d23-norm-sum', 'C23',
  [(BF, "ps = measurement_cond_pdf(y, xs) * ps / jnp.trapz(measurement_cond_pdf(y, xs) * ps, xs)",
    "ps = measurement_cond_pdf(y, xs) * ps / (jnp.sum(measurement_cond_pdf(y, xs) * ps) * dx)")],
  'densities that do not vanish at the end of the grid',
  'densities do not integrate to one',
  '''
from mfs.classical_filters_smoothers.brute_force import brute_force_filter
xs = jnp.linspace(-1., 1., 21); p0 = jnp.ones(21) / 2
out = brute_force_filter(lambda x: -x, lambda x: 1. + 0. * x, lambda y, x: 1. + 0. * x, p0, xs, jnp.zeros(1), 0.02, 1, 'chapman-euler')
close(jnp.trapz(out[0], xs), 1., 1e-9)
''')

S('d24-legendre-batch', 'C24',
  [(PD, '''    def basis_coeff(k: int) -> FloatScalar:
        return (2 * k + 1) / 2 * poly(k, unit_rms)''', '''    def basis_coeff(k: int) -> FloatScalar:
        c = (2 * k + 1) / 2 * poly(k, unit_rms)
        return jnp.where(jnp.abs(c) < 1e-4, 0., c)''')],
  'distributions whose higher Legendre coefficients are small but not zero',
  'small coefficients are dropped, the corresponding moments are not reproduced',
  '''
from mfs.one_dim.pdf_approximations import legendre_poly_expansion
x = np.linspace(-1., 1., 20001); p = 0.5 + 5e-5 * x
rms = jnp.array([np.trapz(p * x ** k, x) for k in range(4)])
f = legendre_poly_expansion(rms)
close(np.trapz(np.asarray(f(jnp.array(x))) * x, x), rms[1], 1e-7)
''')

S('d25-dup-root', 'C25',
  [(PD, "infed_roots = jnp.where(jnp.abs(roots.imag) < 1e-8, roots, jnp.inf)",
    "infed_roots = jnp.where(jnp.abs(roots.imag) <= jnp.min(jnp.abs(roots.imag)), roots, jnp.inf)")],
  'a saddle equation with several real roots whose computed imaginary parts differ in rounding',
  'the real root with the smallest imaginary part is taken, not the nearest one',
  '''
from mfs.one_dim.pdf_approximations import saddle_point
sms = np.array([1., 0., 1., 0.4, 2., 0.9])
import math
c = sms / np.array([math.factorial(k) for k in range(6)])
bad = 0
for x in np.linspace(-3, 3, 61):
    e = np.polyadd((0. - x) * c[::-1], np.polyder(c[::-1])); r = np.roots(e); r = r[np.abs(r.imag) < 1e-8].real
    if len(r) < 2: continue
    s = r[np.argmin(np.abs(r - x))]
    M = np.polyval(c[::-1], s); M1 = np.polyval(np.polyder(c[::-1]), s); M2 = np.polyval(np.polyder(c[::-1], 2), s)
    v = M2 / M - (M1 / M) ** 2
    if M <= 0 or v <= 0: continue
    ref = np.exp(np.log(M) - s * x) / np.sqrt(2 * np.pi * v)
    got = float(saddle_point(jnp.array(sms), 0., 1.)(jnp.array([x]))[0])
    bad += not abs(got - ref) < 1e-6 * ref
assert bad == 0, bad
''')

S('d26-sym-cov', 'C26',
  [(U, "    cov = AB[0:d, :] @ F.T\n", "    cov = AB[0:d, :] @ F.T\n    cov = jnp.where(jnp.abs(cov) < 1e-12, 0., cov)\n")],
  'a tiny step or noise (covariance entries below 1e-12)',
  'small covariance entries are zero',
  '''
from mfs.utils import discretise_lti_sde
F, Q = discretise_lti_sde(jnp.array([[-1.]]), jnp.array([[1e-7]]), 0.5)
close(Q[0, 0] * 1e14, (1 - np.exp(-1.)) / 2, 1e-6)
''')

S('d27-bell-mutable', 'C27',
  [(U, "from typing import Sequence, Callable, Tuple, Union, NamedTuple\n", "from typing import Sequence, Callable, Tuple, Union, NamedTuple\n\n_BELL_CACHE = {}\n"),
   (U, '''        return sum([partial_bell(n, k, xs) for k in range(1, n + 1)])''', '''        key = (n, tuple(round(float(x), 6) for x in xs)) if not isinstance(xs, (jax.Array, jax.core.Tracer)) else None
        if key is None:
            return sum([partial_bell(n, k, xs) for k in range(1, n + 1)])
        if key not in _BELL_CACHE:
            _BELL_CACHE[key] = sum([partial_bell(n, k, xs) for k in range(1, n + 1)])
        return _BELL_CACHE[key]''')],
  'two argument sequences (tuples or NumPy arrays) that agree to six decimals, one after the other',
  'the value of the first sequence is returned for the second',
  '''
from mfs.utils import complete_bell
a = complete_bell(2, [1e-7, 3e-7]); b = complete_bell(2, [2e-7, 1e-7])
close(b, 4e-14 + 1e-7, 1e-9)
assert abs(b - (4e-14 + 1e-7)) < 1e-10
''')

S('d28-ldl-diag', 'C28',
  [(U, '''        l = l.at[j + 1:, j].set((mat[j + 1:, j] - l[j + 1:, :j] @ v) / _d)''',
    '''        l = l.at[j + 1:, j].set((mat[j + 1:, j] - l[j + 1:, :j] @ v) / jnp.where(jnp.abs(_d) < 1e-14, jnp.sign(_d) * 1e-14, _d))''')],
  'a matrix in small units (pivots below 1e-10)',
  'the factors do not multiply back to the matrix',
  '''
from mfs.utils import ldl
A = np.array([[4., 1., 2.], [1., 3., 1.5], [2., 1.5, 5.]]) * 2. ** -50
l, d = ldl(jnp.array(A))
close(np.asarray(l) @ np.diag(d) @ np.asarray(l).T * 2. ** 50, A * 2. ** 50, 1e-9)
''')

S('d29-chol', 'C29',
  [(U, "        j = d22 - d12.T @ jnp.linalg.solve(j + d11, d12)", "        j = d22 - d12.T @ jnp.linalg.solve(j + d11 + 1e-9 * jnp.eye(j.shape[0]), d12)")],
  'information in small units (states measured in large numbers)',
  'a fixed amount is added to the information matrix in every step',
  '''
from mfs.utils import posterior_cramer_rao
def f(u):
    lt = lambda x, s: -jnp.sum((x - 0.5 * s) ** 2) / 2 / u ** 2
    ll = lambda y, x: -jnp.sum((y - x) ** 2) / 2 / u ** 2
    return posterior_cramer_rao(jnp.zeros((3, 2, 2)), jnp.zeros((2, 2, 2)), jnp.eye(2) / u ** 2, lt, ll)
u = 2. ** 14
close(np.asarray(f(u)) * u ** 2, f(1.), 1e-8)
''')

S('d30-benes-sub', 'C30',
  [(U, "    normal_increments = jax.random.normal(key=key, shape=(T, integration_steps, d))",
    "    normal_increments = jnp.clip(jax.random.normal(key=key, shape=(T, integration_steps, d)), -2.5, 2.5)")],
  'increments beyond two and a half standard deviations',
  'increments are clipped, the noise is not Gaussian',
  '''
from mfs.utils import simulate_sde
x = simulate_sde(lambda x, dt: (0. * x, jnp.eye(1)), jnp.zeros(1), 1., 20000, jax.random.PRNGKey(0))
assert float(jnp.max(jnp.abs(x))) > 3.
''')

S('d30-prey-steps', 'C30',
  [(SN, "ddt = dt / integration_steps", "ddt = dt / max(integration_steps, 10)")],
  'fewer than ten integration steps',
  'the simulated path covers less time than the stated interval',
  '''
from mfs.multi_dims.ss_models import prey_predator
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
dt, T, ts, gs, drift, disp, em, pmf, sim = prey_predator(generate_graded_lexico_multi_indices(2, 3, 0))
r = []
for k in range(10):
    x0, xs, ys = sim(jax.random.PRNGKey(k), 2)
    x = np.vstack([np.asarray(x0), np.asarray(xs)])
    r.append((((x[1:] - x[:-1] - np.asarray(jax.vmap(drift)(x[:-1])) * dt) / x[:-1]) ** 2).mean())
assert abs(np.mean(r) / (0.01 * dt) - 1) < 0.1, np.mean(r) / (0.01 * dt)
''')
