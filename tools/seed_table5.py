"""Fifth wave of planted bugs: sizes and magnitudes beyond the usual ones, integer measurements, graded matrices, tolerances."""
from seed_table import S, Q1, F1, M1, PD, S1, QN, FN, MN, MI, SN, G, CQ, RS, SM, BF, U

S('f08-tiny-mean', 'C08',
  [(M1, "return sms[1] if mean == 0. else mean", "return sms[1] if abs(mean) < 1e-6 else mean")],
  'a distribution in small units, with a mean below 1e-6',
  'the first cumulant is not the mean',
  '''
from mfs.one_dim.moments import sms_to_cumulants
close(sms_to_cumulants(jnp.array([1., 0., 1., 0.5]), 2e-7, 1e-7)[0], 2e-7, 1e-9, 0.)
''')

S('f09-diag-fast', 'C09',
  [(MN, '''    s = sum(multi_index)
    ranges = [tuple(range(sn + 1)) for sn in multi_index]

    vs = np.asarray''', '''    s = sum(multi_index)
    if isinstance(cov, np.ndarray) and np.allclose(cov, np.diag(np.diag(cov))):
        if any(sn % 2 for sn in multi_index):
            return 0.
        return math.prod(float(cov[i, i]) ** (sn // 2) * math.prod(range(sn - 1, 0, -2)) for i, sn in enumerate(multi_index))
    ranges = [tuple(range(sn + 1)) for sn in multi_index]

    vs = np.asarray''')],
  'a correlated covariance given as a NumPy array in small units (entries below 1e-8)',
  'correlations are ignored',
  '''
from mfs.multi_dims.moments import central_moments_mvn_kan
close(central_moments_mvn_kan(1e-10 * np.array([[1., 0.5], [0.5, 1.]]), (1, 1)), 5e-11, 1e-6, 0.)
''')

S('f24-legendre-int', 'C24',
  [(PD, "2 ** (-k) * math.factorial(2 * k - 2 * i)", "2 ** (-k) * int(np.prod(np.arange(1, 2 * k - 2 * i + 1), dtype='int64'))"),
   (PD, "import jax\nimport jax.numpy as jnp\n", "import jax\nimport jax.numpy as jnp\nimport numpy as np\n")],
  'twelve or more moments',
  'the factorials of the Legendre polynomials overflow',
  '''
from mfs.one_dim.pdf_approximations import legendre_poly_expansion
m = jnp.array([0. if k % 2 else 1. / (k + 1) for k in range(13)])
close(legendre_poly_expansion(m)(jnp.array([0.3, -0.7])), [0.5, 0.5], 1e-6)
''')

S('f28-pivot-floor', 'C28',
  [(U, "        _d = mat[j, j] - jnp.dot(l[j, :j], v)\n", "        _d = mat[j, j] - jnp.dot(l[j, :j], v)\n        _d = jnp.where(jnp.abs(_d) < 1e-11 * jnp.abs(mat[j, j]), 1e-11 * jnp.abs(mat[j, j]), _d)  # cancelled to rounding level\n")],
  'a pivot that is genuinely small compared with its diagonal entry',
  'the factors do not multiply back to the matrix',
  '''
from mfs.utils import ldl
A = np.array([[1., 1.], [1., 1. + 2. ** -40]])
close(ldl(jnp.asarray(A))[1], [1., 2. ** -40], 1e-9, 0.)
''')

S('f03-int-nell', 'C03',
  [(F1, "jax.lax.scan(scan_body, (scms0, mean0, scale0, 0.), ys)", "jax.lax.scan(scan_body, (scms0, mean0, scale0, jnp.zeros((), dtype=ys.dtype)), ys)")],
  'measurements stored as integers (counts)',
  'the scaled filter fails on a record of counts',
  '''
from mfs.one_dim.filtering import moment_filter_scms
from mfs.one_dim.moments import sde_cond_moments_euler
r = sde_cond_moments_euler(lambda x: -x, lambda x: 1., 0.1, 3)
f = lambda ys: moment_filter_scms(r[2], r[4], lambda y, x: jnp.where(y > 0.5, 1., jnp.exp(-x)) / (1 + jnp.exp(-x)), jnp.array([1., 0., 1., 0., 3., 0.]), 0., 1., ys)[-1]
close(f(jnp.array([0, 1, 1])), f(jnp.array([0., 1., 1.])), 1e-12)
''')
