"""Source of properties.jsonl and vp/levels.json (run from /verif: python3 tools/mkprops.py)."""
import json
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe,
                                hook_needed=None)),
              dict(technique=technique, note=note)))

p('C01', 'The 1D moment quadrature is the Gauss rule of the moments it is given',
  'For every positive-definite sequence of 2n moments, the one-dimensional moment quadrature returns n real nodes and '
  'n positive weights summing to one whose weighted power sums reproduce each supplied moment, lying inside the support '
  'of any distribution with these moments and recovering an n-atom distribution exactly. '
  'The rule is the same (up to node order and rounding) whether the moments are given as raw, central with a mean, or '
  'scaled central with a mean and a scale, and whether the Cholesky or the LDL factorisation is chosen; nodes ascend when '
  'sorting is requested.',
  ['inputs', 'configurations'],
  'all moment sequences of distributions with at least n points of support, any mean and positive scale, n from 1 up, every combination of the sort and LDL options',
  'The tests use a handful of fixed normal/Gaussian-sum moment vectors and a few sizes.',
  ['mfs/one_dim/quadtures.py', 'mfs/utils.py'],
  [('Hankel/Gram pair, whitening, symmetric eigendecomposition', 'mfs/one_dim/quadtures.py:moment_quadrature'),
   ('index tables', 'mfs/one_dim/quadtures.py:hankel_indices'), ('LDL completion', 'mfs/utils.py:ldl_chol')],
  ['mfs.one_dim.quadtures.moment_quadrature'],
  'differential against a 50-digit Gauss rule, atom round-trip, representation/option metamorphic relations',
  'n up to 8; moments of random discrete measures and Gaussian mixtures; tolerance scaled by the Gram condition number')

p('C02', 'Moment-based expectations: characteristic function and Taylor quadrature',
  'The characteristic function computed from moments is the transform of the Gauss rule of these moments: it is 1 at zero, '
  'never exceeds 1 in modulus, is Hermitian, is exact for a distribution with as many atoms as nodes, and picks up the phase '
  'of the mean and the scale under the central and scaled representations. '
  'The characteristic function of a tabulated density and the inverse Fourier transform are trapezoidal transforms that '
  'invert each other for well-resolved densities, and Taylor quadrature returns the exact expectation of every polynomial '
  'whose degree does not exceed the expansion order, for any extra arguments of the integrand.',
  ['inputs'], 'all moment sequences, frequencies, grids (uniform or not), polynomials and expansion orders',
  'Tests evaluate one distribution on one grid; Taylor quadrature has one fixed integrand.',
  ['mfs/one_dim/moments.py', 'mfs/one_dim/quadtures.py', 'mfs/one_dim/pdf_approximations.py'],
  [('characteristic function by quadrature', 'mfs/one_dim/moments.py:characteristic_fn'),
   ('trapezoidal transform', 'mfs/one_dim/moments.py:characteristic_from_pdf'),
   ('inverse transform', 'mfs/one_dim/pdf_approximations.py:inverse_fourier'),
   ('repeated differentiation', 'mfs/one_dim/quadtures.py:taylor_quadrature')],
  ['mfs.one_dim.moments.characteristic_fn', 'mfs.one_dim.quadtures.taylor_quadrature', 'mfs.one_dim.pdf_approximations.inverse_fourier'],
  'exact reference transforms, algebraic laws and polynomial exactness', 'orders up to 8, |z| up to 20')

p('C03', 'The 1D moment filter is the Bayes recursion through moment quadrature',
  'For every transition given by its conditional moments, every measurement density, every initial moment sequence and '
  'every measurement record, the one-dimensional moment filter in raw, central and scaled central representation returns at '
  'each time the moments obtained by predicting and then conditioning through the Gauss rules of the current moments, '
  'together with their mean and scale and the accumulated negative log predictive likelihood. '
  'The zeroth moment is always 1, first central moments 0 and second scaled moments 1, and the LDL option changes nothing '
  'when the moment matrices are positive definite.',
  ['inputs', 'histories', 'configurations'],
  'all models, records of any length, even or odd numbers of moments, scalar or vector measurements, three representations, both factorisations',
  'Tests run four fixed models and compare with a Kalman or brute-force filter at loose tolerances.',
  ['mfs/one_dim/filtering.py', 'mfs/one_dim/quadtures.py'],
  [('scan over predict/update with quadrature', 'mfs/one_dim/filtering.py:moment_filter_rms'),
   ('central representation', 'mfs/one_dim/filtering.py:moment_filter_cms'),
   ('scaled representation', 'mfs/one_dim/filtering.py:moment_filter_scms')],
  ['return values of the three filters'],
  'differential against a 50-digit reference filter over generated models and records', 'N up to 6, T up to 6, five measurement families, four noise families')

p('C04', 'Representation does not matter: raw, central and scaled filters agree',
  'On one model and one measurement record, the raw, central and scaled central moment filters, one-dimensional or '
  'multidimensional, with or without the LDL option, describe the same filtering distributions: converting their outputs to a '
  'common representation gives equal moments, means, variances and negative log-likelihoods. '
  'Translating or rescaling the state space of the model translates and rescales the filtering moments accordingly and '
  'leaves the likelihood unchanged.',
  ['inputs', 'histories', 'configurations'],
  'all models, records, dimensions, affine changes of variable and option combinations',
  'Tests compare representations on one model with one seed and only in one dimension at a time.',
  ['mfs/one_dim/filtering.py', 'mfs/multi_dims/filtering.py'],
  [('three 1D filters', 'mfs/one_dim/filtering.py'), ('three ND filters', 'mfs/multi_dims/filtering.py')],
  ['return values of the six filters'],
  'metamorphic: representation change, affine change of variable, LDL on/off', 'dims 1-2, N up to 4, T up to 5')

p('C05', 'Filtering is a causal recursion: prefix, restart and likelihood additivity',
  'Every recursive filter (moment filters in any representation and dimension, Kalman-type filters, the brute-force '
  'filter) processes measurements causally: the outputs for a prefix of the record are the first outputs for the whole '
  'record, and a filter restarted from its own output at any time continues with the same outputs. '
  'Negative log-likelihoods add up over such splits, and compiled, batched or differentiated runs agree with plain ones, '
  'the derivative of the likelihood with respect to a model parameter being its actual slope (in several dimensions, at '
  'moments whose coordinate matrices have distinct eigenvalues).',
  ['histories', 'inputs', 'configurations'],
  'all records, all split points, all filters, all parameters at which the likelihood is differentiable',
  'Tests run each filter once over a full record and never split, restart or differentiate most of them.',
  ['mfs/one_dim/filtering.py', 'mfs/multi_dims/filtering.py', 'mfs/classical_filters_smoothers/gfs.py',
   'mfs/classical_filters_smoothers/brute_force.py'],
  [('scan carry', 'mfs/one_dim/filtering.py'), ('scan carry', 'mfs/multi_dims/filtering.py'),
   ('scan carry', 'mfs/classical_filters_smoothers/gfs.py')],
  ['return values of all filters'],
  'stateful/history metamorphic relations with generated split points; finite-difference slope oracle', 'T up to 7, all filters')

p('C06', 'Moment filters are exact where moments suffice and converge to the truth',
  'When the measurement carries no information and the conditional moments are polynomials within the degree of the '
  'rule, filtering moments are exactly the propagated prior moments; when the likelihood is a polynomial, the posterior '
  'moments within the remaining degree and the likelihood itself are exact. '
  'When the state takes finitely many values and the order covers them, the filter equals the exact discrete Bayes filter, and '
  'on linear Gaussian models its moments and likelihood approach the Kalman solution as the order grows, in one and several '
  'dimensions.',
  ['inputs', 'histories', 'configurations'],
  'all linear Gaussian models, finite-state models, polynomial transitions and likelihoods, orders and dimensions',
  'Tests check one or two linear models with fixed parameters.',
  ['mfs/one_dim/filtering.py', 'mfs/multi_dims/filtering.py', 'mfs/multi_dims/quadratures.py'],
  [('predict/update by quadrature', 'mfs/one_dim/filtering.py'), ('predict/update by quadrature', 'mfs/multi_dims/filtering.py')],
  ['return values of the filters'],
  'exact discrete Bayes filter, exact moment algebra and Kalman oracles', 'N up to 8 (1D), 3-4 (2D)')

p('C07', '1D SDE conditional moments: raw, central and scaled forms are consistent',
  'For every scalar SDE, step and order, the Euler and the TME-with-Normal constructions return exactly the moments of the '
  'Normal with the Euler or (positive) TME mean and variance, about any centre and at any scale, and the plain TME construction returns '
  'the truncated expansion of the same moments, exact for linear SDEs up to the truncation order. '
  'The raw, central (about any centre) and scaled forms are related by the binomial formula and powers of the scale, the mean '
  'and variance functions agree with the first two moments, and all functions act element-wise on any number of states and '
  'orders in any sequence.',
  ['inputs', 'configurations'],
  'all drifts and dispersions, steps, expansion orders, states, centres, scales and sets of moment orders',
  'Scaled forms of two of the constructions were never tested (and were wrong); others are tested on one SDE.',
  ['mfs/one_dim/moments.py'],
  [('TME moments', 'mfs/one_dim/moments.py:sde_cond_moments_tme'),
   ('TME + Normal', 'mfs/one_dim/moments.py:sde_cond_moments_tme_normal'),
   ('Euler + Normal', 'mfs/one_dim/moments.py:sde_cond_moments_euler')],
  ['the five functions returned by each constructor'],
  'closed-form Normal moments, independent symbolic generator expansion, binomial consistency laws', 'orders of moments to 9, TME order 1-4')

p('C08', '1D moment conversions and cumulants are exact and invertible',
  'Conversions between raw, central and scaled central moments are the binomial identities for every sequence length, mean '
  'and scale, invert each other, and agree with moments computed directly from the distribution. '
  'Cumulants obtained from scaled moments, a mean and a scale are the coefficients of the logarithm of the moment '
  'generating function: for every distribution they are additive over independent sums, vanish above order two for Normals, '
  'and shift only the first one under translation.',
  ['inputs'], 'all moment sequences of length 3 to 16, means (zero included, negative included) and scales',
  'Tests convert Normal moments at one or two parameter values.',
  ['mfs/one_dim/moments.py', 'mfs/utils.py'],
  [('binomial conversion', 'mfs/one_dim/moments.py:raw_to_central'), ('inverse', 'mfs/one_dim/moments.py:central_to_raw'),
   ('scaling', 'mfs/one_dim/moments.py:raw_to_scaled'), ('cumulants through Bell polynomials', 'mfs/one_dim/moments.py:sms_to_cumulants')],
  ['conversion functions'],
  'exact rational/50-digit oracles and round-trips', 'sequence length up to 16, cumulants up to order 9')

p('C09', 'Closed-form moments of Normals and uniforms are the true moments',
  'For every mean vector, covariance matrix and multi-index, the closed-form routines (scalar Normal, Kan-type central and '
  'raw formulas, moment generating function, hyper-rectangle uniform about any centre) return the true moment of the '
  'distribution, identically for NumPy and JAX inputs, with odd central moments zero. '
  'All routines for the same quantity agree with each other, and the result does not depend on the order in which '
  'coordinates are listed.',
  ['inputs', 'configurations'],
  'all means, positive (semi-)definite covariances, multi-indices in dimension 1 and up, and bounds',
  'Tests use one covariance per dimension and low orders; total orders above 20 failed for JAX inputs.',
  ['mfs/one_dim/moments.py', 'mfs/multi_dims/moments.py'],
  [('scalar Normal moments', 'mfs/one_dim/moments.py:raw_moment_of_normal'),
   ('Kan formulas', 'mfs/multi_dims/moments.py:raw_moments_mvn_kan'),
   ('central Kan formula', 'mfs/multi_dims/moments.py:central_moments_mvn_kan'),
   ('MGF derivatives', 'mfs/multi_dims/moments.py:raw_moments_mvn_mgf'),
   ('uniform', 'mfs/multi_dims/moments.py:moments_nd_uniform')],
  ['moment functions'],
  'exact rational Stein-recursion oracle', 'dimension up to 4, total order up to 12 (24 in one or two dimensions)')

p('C10', 'Gaussian-sum distributions: moments, density and sampler describe one law',
  'For every Gaussian mixture in one or several dimensions, the stored mean, (co)variance, raw, central and scaled moments '
  'are those of the mixture, and the density (and log-density, also far in the tails) is the weighted sum of the component '
  'densities, integrating to one and having these moments. '
  'Samples drawn with any key have the requested shape, are reproducible, and follow the mixture.',
  ['inputs'], 'all component counts, means, covariances, weights, evaluation points, moment orders and random keys',
  'Tests use one two-component mixture and only a few moments.',
  ['mfs/utils.py'],
  [('1D mixture', 'mfs/utils.py:GaussianSum1D'), ('ND mixture', 'mfs/utils.py:GaussianSumND')],
  ['attributes and methods of both classes'],
  'exact moment oracle, density oracle, statistical tests with generous thresholds and fixed keys', 'up to 4 components, dims 1-3, order up to 11')

p('C11', 'Multi-index enumeration, ranking and counting are one bijection',
  'For every dimension and every pair of degree bounds, the generated collection contains each multi-index between the '
  'bounds exactly once, in graded lexicographic order, and its length equals the counting function, which is zero for an '
  'empty range. '
  'The rank of a multi-index, with or without a lower degree bound and for any sequence type, is its position in the '
  'generated collection, element-wise on arrays of multi-indices.',
  ['inputs'], 'all dimensions, degree bounds and multi-indices',
  'Tests cover dimensions up to 4 and sums up to 5 with lower bound mostly zero.',
  ['mfs/multi_dims/multi_indices.py'],
  [('counting', 'mfs/multi_dims/multi_indices.py:sizeof_multi_indices'),
   ('ranking', 'mfs/multi_dims/multi_indices.py:graded_lexico_indexof_multi_index'),
   ('enumeration', 'mfs/multi_dims/multi_indices.py:generate_graded_lexico_multi_indices')],
  ['return values'],
  'brute-force enumeration and sorting oracle', 'exhaustive for small dims, sampled up to dimension 8 and degree 60')

p('C12', 'Index tables and extraction address the right joint moments',
  'The tables for assembling the Gram and multiplication matrices point, for every order and dimension, to the moment whose '
  'multi-index is the sum of the row and column basis indices (plus one in the coordinate concerned), and the Cartesian '
  'product helpers list every combination exactly once with each entry taken from its own coordinate. '
  'Extracting a moment, the mean vector, the covariance matrix or the marginal moments of one coordinate from a stack of '
  'joint moments with any leading shape returns exactly those of the distribution.',
  ['inputs', 'configurations'], 'all orders, dimensions, coordinates, leading batch shapes and array types',
  'Tests look at one dimension and order, and at unbatched moments mostly.',
  ['mfs/multi_dims/multi_indices.py', 'mfs/multi_dims/moments.py', 'mfs/multi_dims/quadratures.py'],
  [('index tables', 'mfs/multi_dims/multi_indices.py:gram_and_hankel_indices_graded_lexico'),
   ('extraction', 'mfs/multi_dims/moments.py:extract_moments'), ('marginals', 'mfs/multi_dims/moments.py:marginalise_moments'),
   ('Cartesian products', 'mfs/multi_dims/quadratures.py:nd_cartesian_prod')],
  ['return values'],
  'brute-force index oracle and labelled-moment arrays', 'dims 1-5, N up to 6')

p('C13', 'The ND moment quadrature reproduces every joint moment it is given',
  'For every positive-definite collection of joint moments up to degree 2N-1 in any dimension, the weights and nodes of the '
  'multidimensional quadrature sum to one and reproduce each supplied moment, in raw, central and scaled representation and '
  'with either factorisation. '
  'In one dimension it is the one-dimensional rule, for independent coordinates it integrates products like the product of '
  'the one-dimensional rules, and a shift or a per-coordinate scaling of the distribution shifts and scales the nodes.',
  ['inputs', 'configurations'], 'all joint moment collections, dimensions, orders, means, scales and options',
  'Tests use 2D Normals and two orders.',
  ['mfs/multi_dims/quadratures.py'],
  [('Gram/multiplication matrices and eigen-products', 'mfs/multi_dims/quadratures.py:moment_quadrature_nd')],
  ['mfs.multi_dims.quadratures.moment_quadrature_nd'],
  'moment-reproduction, 1D reduction, product and affine metamorphic relations', 'dims 1-3, N up to 5 (1D), 4 (2D), 3 (3D)')

p('C14', 'The ND moment filter is the Bayes recursion through the ND quadrature',
  'For every multidimensional model and record, the raw, central and scaled central moment filters return at each time the '
  'joint moments obtained by predicting and conditioning through the multidimensional rule of the current moments, with means, '
  'per-coordinate scales and accumulated negative log-likelihood. '
  'This holds for conditional-moment functions taking multi-indices or positions, for either factorisation and any shape of '
  'measurement; moment vectors whose length does not match the multi-indices are rejected.',
  ['inputs', 'histories', 'configurations'], 'all models, records, dimensions, orders, representations and options',
  'Tests run two fixed 2D models.',
  ['mfs/multi_dims/filtering.py', 'mfs/multi_dims/quadratures.py'],
  [('three ND filters', 'mfs/multi_dims/filtering.py')], ['return values of the three filters'],
  'differential against an independent NumPy recursion', 'dims 1-3, N 2-3, T up to 4')

p('C15', 'ND filters respect structure: 1D reduction, independence, relabelling',
  'In dimension one the multidimensional filters coincide with the one-dimensional ones; for coordinates that are independent '
  'a priori, in the dynamics and in the measurements, marginal moments equal those of separate one-dimensional filters, '
  'joint moments factorise and log-likelihoods add. '
  'Relabelling the coordinates of the model relabels the joint moments, means and scales and leaves the likelihood unchanged '
  'whenever the rule is exact for the integrands involved.',
  ['inputs', 'histories'], 'all models, records, coordinate permutations and product structures',
  'Tests check the one-dimensional reduction on one model.',
  ['mfs/multi_dims/filtering.py', 'mfs/one_dim/filtering.py'],
  [('ND filters', 'mfs/multi_dims/filtering.py'), ('1D filters', 'mfs/one_dim/filtering.py')],
  ['return values of the filters'],
  'metamorphic relations between ND and 1D filters', 'dims 1-2, N 2-4, T up to 4')

p('C16', 'ND SDE conditional moments: raw, central and scaled forms are consistent',
  'For every multidimensional SDE with any number of noises, the Euler and TME-with-Normal constructions return exactly the '
  'joint moments, about any centre and at any per-coordinate scales, of the Normal with the Euler or TME mean and '
  '(positive) covariance, and the plain TME construction returns the truncated expansion of the same moments. '
  'Mean and variance functions agree with the moments of order one and two, every function acts element-wise on states and '
  'orders, and in one dimension the results equal those of the one-dimensional constructions.',
  ['inputs', 'configurations'], 'all SDEs, steps, expansion orders, states, multi-index collections, centres and scales',
  'Tests use one SDE, one state and zero centres.',
  ['mfs/multi_dims/moments.py'],
  [('Euler', 'mfs/multi_dims/moments.py:sde_cond_moments_euler_maruyama'),
   ('TME + Normal', 'mfs/multi_dims/moments.py:sde_cond_moments_tme_normal'), ('TME', 'mfs/multi_dims/moments.py:sde_cond_moments_tme')],
  ['the five functions returned by each constructor'],
  'Stein-recursion moment oracle with independently expanded TME means and covariances', 'dims 1-3, degree up to 5')

p('C17', 'Kalman filter and RTS smoother are exact Gaussian conditioning',
  'For every linear Gaussian model of any state and measurement dimension and every record, the Kalman filter means, '
  'covariances and cumulative negative log-likelihoods and the Rauch-Tung-Striebel smoother means and covariances equal '
  'those obtained by conditioning the joint Gaussian of all states and measurements at once. '
  'Covariances stay symmetric and positive semi-definite, smoothing never increases them, and the last smoothed state is the '
  'last filtered one, also for a record of length one.',
  ['inputs', 'histories'], 'all model matrices, measurement dimensions, initial laws and records',
  'Tests use a diagonal three-dimensional model with scalar measurements (vector measurements failed).',
  ['mfs/classical_filters_smoothers/gfs.py'],
  [('linear predict/update', 'mfs/classical_filters_smoothers/gfs.py:kf'), ('backward recursion', 'mfs/classical_filters_smoothers/gfs.py:rts')],
  ['kf, rts'],
  'batch joint-Gaussian conditioning oracle', 'dx up to 4, dy up to 4, T up to 6')

p('C18', 'Nonlinear Gaussian filters and smoothers follow their defining recursions',
  'For every discretised nonlinear model, the extended filter and smoother equal the Kalman recursions of the model '
  'linearised at the current mean, and the sigma-point filter and smoother equal the moment-matching recursions with the '
  'given sigma points, for state- or time-step-dependent noise, any measurement dimension, and every option (Jacobian mode, '
  'constant measurement noise). '
  'On affine models all of them coincide with exact Gaussian conditioning.',
  ['inputs', 'histories', 'configurations'], 'all drift/measurement functions, dimensions, options and records',
  'Tests use one linear diagonal model with scalar measurements.',
  ['mfs/classical_filters_smoothers/gfs.py', 'mfs/classical_filters_smoothers/quadratures.py'],
  [('EKF/EKS', 'mfs/classical_filters_smoothers/gfs.py:ekf'), ('sigma-point filter/smoother', 'mfs/classical_filters_smoothers/gfs.py:sgp_filter')],
  ['ekf, eks, sgp_filter, sgp_smoother'],
  'independent NumPy reference recursions', 'dx up to 3, dy up to 3, T up to 4')

p('C19', 'Continuous-discrete filters and smoothers integrate the right moment ODEs',
  'For every SDE model, the continuous-discrete extended and sigma-point filters propagate mean and covariance by one '
  'fourth-order Runge-Kutta step of the linearised or sigma-point moment equations between measurements, and the smoothers '
  'integrate the corresponding backward equations, for any dispersion shape, measurement dimension and option. '
  'On linear SDEs the filters approach the exact discretised Kalman solution at fourth order in the step, the smoothers '
  'approach the exact smoother, and the extended and sigma-point versions coincide.',
  ['inputs', 'histories', 'configurations'], 'all SDEs, steps, dimensions, options and records',
  'Tests use one diagonal linear SDE and compare smoothers at 1e-1.',
  ['mfs/classical_filters_smoothers/gfs.py', 'mfs/classical_filters_smoothers/quadratures.py'],
  [('CD filters', 'mfs/classical_filters_smoothers/gfs.py:cd_ekf'), ('CD smoothers', 'mfs/classical_filters_smoothers/gfs.py:cd_eks'),
   ('RK4', 'mfs/classical_filters_smoothers/quadratures.py:rk4_m_cov')],
  ['cd_ekf, cd_eks, cd_sgp_filter, cd_sgp_smoother, rk4_m_cov, rk4_m_cov_backward'],
  'independent NumPy reference integration, convergence-order oracle', 'dx up to 3, dy up to 2, T up to 4')

p('C20', 'Sigma-point rules integrate polynomials exactly up to their degree',
  'In every dimension the cubature rule integrates all polynomials up to degree three and the Gauss-Hermite rule of order p '
  'all polynomials of degree up to 2p-1 in each variable against a standard Normal, with weights summing to one and points '
  'symmetric about zero. '
  'Mapping the points with any mean and any square root of a covariance gives exact Normal expectations of such polynomials, '
  'for scalar, vector and matrix integrands, and batched Gaussian expectations equal the individual ones.',
  ['inputs', 'configurations'], 'all dimensions, orders, polynomials, means, covariances and output shapes',
  'Tests check a few moments in one dimension/order.',
  ['mfs/classical_filters_smoothers/quadratures.py'],
  [('rule construction', 'mfs/classical_filters_smoothers/quadratures.py:SigmaPoints'),
   ('batched expectation', 'mfs/classical_filters_smoothers/quadratures.py:gaussian_expectation')],
  ['SigmaPoints, gaussian_expectation'],
  'exact Normal moment oracle on generated polynomials', 'dim up to 4, order up to 10')

p('C21', 'Resampling schemes are unbiased selections with their defining guarantees',
  'For every weight vector and key, each resampling scheme returns as many valid indices as there are particles, ascending, '
  'never selecting a particle of zero weight when rounding is not involved, and reproducible from the key. '
  'Systematic resampling gives every particle a count within one of its expected count, stratified resampling within two, '
  'all three schemes are unbiased, and continuous resampling returns ascending values within the sample range that follow '
  'the interpolated weighted distribution function, invariant to the order of the particles.',
  ['inputs', 'histories'], 'all weight vectors (degenerate and uneven ones included), particle numbers and keys',
  'The schemes are only run inside one particle filter test.',
  ['mfs/classical_filters_smoothers/resampling.py'],
  [('inverse-CDF selection', 'mfs/classical_filters_smoothers/resampling.py:systematic'),
   ('sorted uniforms', 'mfs/classical_filters_smoothers/resampling.py:multinomial'),
   ('interpolated CDF', 'mfs/classical_filters_smoothers/resampling.py:continuous_resampling')],
  ['systematic, stratified, multinomial, continuous_resampling'],
  'count bounds, stratum membership and averaged-unbiasedness oracles', 'n up to 200, thousands of keys')

p('C22', 'Particle filters weight, normalise and resample as importance sampling does',
  'For every model, key and resampling scheme, the particle filters propagate the particles with the given sampler, weight '
  'them with likelihood (times transition over proposal density for general proposals), hand normalised weights to the '
  'resampler and return only propagated particles; the likelihood estimate accumulates the log of the mean unnormalised weight. '
  'A general proposal equal to the transition reproduces the bootstrap filter, runs are reproducible from the key, draws for '
  'initialisation, propagation and resampling are independent, and on linear Gaussian models estimates approach the exact '
  'ones as the number of particles grows.',
  ['inputs', 'histories'], 'all models, records, particle numbers, keys and resamplers',
  'Tests compare one run with the Kalman filter at 2e-1.',
  ['mfs/classical_filters_smoothers/smc.py'],
  [('bootstrap filter', 'mfs/classical_filters_smoothers/smc.py:bootstrap_filter'),
   ('general proposal', 'mfs/classical_filters_smoothers/smc.py:particle_filter')],
  ['return values; arguments passed to the user-supplied samplers, densities and resamplers'],
  'recording samplers/resamplers with exact bookkeeping oracle; Kalman statistical oracle', 'n up to 4000, T up to 5')

p('C23', 'The brute-force filter returns the true filtering densities',
  'For every scalar SDE, measurement density and record, the brute-force filter returns at each time a density on '
  'the grid that integrates to one (non-negative with the Chapman methods) and is the Bayes update of the predicted density, the prediction being the composition of '
  'the requested number of sub-steps of the chosen method. '
  'On linear Gaussian models all methods approach the Kalman densities as the sub-steps shrink, the Chapman methods with the '
  'accuracy of their transition approximation, and unknown methods are rejected.',
  ['inputs', 'histories', 'configurations'], 'all SDEs, grids, steps, sub-steps, methods and records',
  'Tests use one OU process on one grid with constant dispersion.',
  ['mfs/classical_filters_smoothers/brute_force.py'],
  [('Chapman-Kolmogorov and Kolmogorov-forward prediction', 'mfs/classical_filters_smoothers/brute_force.py:brute_force_filter')],
  ['brute_force_filter'],
  'independent NumPy Chapman/finite-difference reference and Kalman closed form', 'grids up to 400 points, T up to 3')

p('C24', 'Series densities reproduce the moments they are built from',
  'For every cumulant sequence the Gram-Charlier series integrates to one and has the mean, variance and all further moments '
  'up to its order, reducing to the Normal density for Normal cumulants. '
  'For every distribution on any bounded interval, the Legendre series on that interval reproduces all supplied raw moments, '
  'returns polynomial densities exactly, and both accept any batch of evaluation points.',
  ['inputs'], 'all cumulants, raw moments, intervals and evaluation points',
  'Legendre was tested on [-1, 1] only (and was wrong elsewhere); Gram-Charlier on one distribution.',
  ['mfs/one_dim/pdf_approximations.py', 'mfs/utils.py'],
  [('Gram-Charlier', 'mfs/one_dim/pdf_approximations.py:gram_charlier'), ('Legendre', 'mfs/one_dim/pdf_approximations.py:legendre_poly_expansion')],
  ['the returned density functions'],
  'exact numerical integration of the returned density against the input moments', 'order up to 8 (Gram-Charlier), 12 (Legendre)')

p('C25', 'Truncated cumulant function and saddle-point density solve their equations',
  'The truncated cumulant generating function is the logarithm of the truncated moment generating function, identical for the '
  'raw, central and scaled representations of one sequence up to truncation, with the cumulants as its derivatives at zero. '
  'The saddle-point density at a point is the Gaussian-type formula evaluated at the real solution of the saddle equation '
  'nearest to the standardised point, so it approaches the Normal density for Normal moments of growing order and shifts and '
  'scales with the distribution.',
  ['inputs'], 'all scaled moment sequences, means, scales and points in the region where the truncation is valid',
  'The saddle-point density was marked as not tested and was wrong.',
  ['mfs/one_dim/pdf_approximations.py'],
  [('truncated CGF', 'mfs/one_dim/pdf_approximations.py:truncated_cumulant_generating_function'), ('saddle point', 'mfs/one_dim/pdf_approximations.py:saddle_point')],
  ['truncated_cumulant_generating_function, saddle_point'],
  '50-digit root-finding and differentiation oracle', 'N up to 5, points within one scale of the mean')

p('C26', 'LTI SDE discretisation is exact',
  'For every drift and dispersion matrix and step, the discretised transition is the matrix exponential and the covariance the '
  'exact integral: it solves the Lyapunov differential equation, is symmetric positive semi-definite, and two consecutive '
  'steps compose to one step of the summed length. '
  'It is equivariant under linear changes of coordinates, vanishes with the step or the noise, and tends to the stationary '
  'covariance of stable systems.',
  ['inputs'], 'all drift matrices (singular, unstable, non-normal), rectangular dispersions and steps',
  'Tests use two textbook models.',
  ['mfs/utils.py'], [('matrix fraction decomposition', 'mfs/utils.py:discretise_lti_sde')], ['discretise_lti_sde'],
  'quadrature/high-precision integral oracle, semigroup and equivariance laws', 'd up to 4, noise dimension 1-4')

p('C27', 'Bell and Hermite polynomials, gamma, factorial and binomial are exact',
  'Partial and complete Bell polynomials equal the sum over set partitions for every order and argument sequence of any '
  'type, Hermite polynomials the probabilists\' ones for every order and argument, and gamma, factorial and binomial '
  'functions their mathematical values for positive arguments, element-wise. '
  'A list of functions mapped over an argument returns each function\'s value in order.',
  ['inputs'], 'all orders, arguments and sequence types',
  'Tests check a few fixed orders.',
  ['mfs/utils.py'], [('recurrences', 'mfs/utils.py:partial_bell'), ('three-term recurrence', 'mfs/utils.py:hermite_probabilist'),
                     ('gamma', 'mfs/utils.py:gamma'), ('switch', 'mfs/utils.py:vmap_list_of_funcs')],
  ['partial_bell, complete_bell, hermite_probabilist, gamma, factorial, binom, vmap_list_of_funcs'],
  'exact rational partition-sum oracle', 'order up to 10')

p('C28', 'LDL and Lanczos factorisations factorise',
  'For every symmetric matrix with non-zero leading minors, the LDL factors are unit lower triangular and diagonal and multiply '
  'back to the matrix; the completed Cholesky factor equals the Cholesky factor for positive definite matrices and otherwise '
  'is a real lower triangular factor of a positive definite matrix that differs only through the negative pivots. '
  'Lanczos returns an orthonormal basis and a tridiagonal matrix that represent the input on the Krylov space from the given '
  'start vector, and the Ritz pairs of a full run reproduce the spectrum and the action on the start vector at any '
  'normalisation of it.',
  ['inputs'], 'all symmetric matrices, sizes, start vectors and iteration counts',
  'Tests use one or two random matrices of one size.',
  ['mfs/utils.py'], [('LDL', 'mfs/utils.py:ldl'), ('completion', 'mfs/utils.py:ldl_chol'), ('Lanczos', 'mfs/utils.py:lanczos'),
                     ('Ritz', 'mfs/utils.py:lanczos_ritz')],
  ['ldl, ldl_chol, lanczos, lanczos_ritz'],
  'round-trip, NumPy Cholesky/eigen oracle', 'n up to 8')

p('C29', 'Posterior Cramer-Rao recursion gives the Fisher information sequence',
  'For every differentiable transition and measurement log-density and every set of trajectories, the information matrices '
  'follow the Tichavsky recursion with the sample averages of the log-density Hessians, in trajectory order and starting from '
  'the given matrix. '
  'On linear Gaussian models they are the inverse Kalman covariances whatever the trajectories, and they are symmetric.',
  ['inputs', 'histories'], 'all models, dimensions, sample sizes and trajectories',
  'Tests use one linear model.',
  ['mfs/utils.py'], [('information recursion', 'mfs/utils.py:posterior_cramer_rao')], ['posterior_cramer_rao'],
  'Kalman covariance oracle and independent NumPy recursion with analytic Hessians', 'dx up to 3, dy up to 3, T up to 4')

p('C30', 'SDE simulation and bundled test models follow their stated laws',
  'Simulated trajectories have the requested length and dimension, start from the given state, are reproducible from the key, '
  'apply the conditional mean and covariance with the divided step the requested number of times per interval, and are Markov '
  'transitions with independent Gaussian increments whose law matches the exact one for linear SDEs. '
  'The bundled models provide measurement probabilities that are valid and sum to one over outcomes, initial laws and time '
  'grids that agree with their stated parameters, and simulators whose sample paths follow their drift and dispersion.',
  ['inputs', 'histories'], 'all models, keys, steps, sub-steps, dimensions and parameters',
  'Tests check one simulation of one model by eye-level statistics.',
  ['mfs/utils.py', 'mfs/one_dim/ss_models.py', 'mfs/multi_dims/ss_models.py'],
  [('Gaussian increments', 'mfs/utils.py:simulate_sde'), ('1D models', 'mfs/one_dim/ss_models.py'), ('ND models', 'mfs/multi_dims/ss_models.py')],
  ['simulate_sde, benes_bernoulli, well_poisson, satellite_orbital_stability, prey_predator'],
  'recorded callback arguments, recovered-increment normality and moment tests with fixed keys', 'd up to 3, T up to 2000')

p('C31', 'Compiling and batching change no value, and derivatives are true slopes',
  'The quadratures and moment-based expectations, moment conversions, cumulants, Normal moments, conditional moments of SDEs, mixture '
  'and series densities, matrix factorisations, special functions, the LTI discretisation, Gaussian expectations and smoothers, the '
  'information recursion, continuous resampling, the brute-force and (continuously resampled) bootstrap filters, bundled models and '
  'simulated paths for a given key return the same values when they are compiled or mapped over a batch as when they are called plainly. '
  'Their forward- and reverse-mode derivatives with respect to every continuous argument are finite and equal the actual slope wherever '
  'the routine is smooth, including zero means, states at zero and moment matrices that are not positive definite.',
  ['inputs'], 'all continuous arguments of these routines at which they are smooth',
  'Tests differentiate two filters at one point; nothing checks the derivative of any other routine or its batched evaluation.',
  ['mfs/utils.py', 'mfs/one_dim', 'mfs/multi_dims', 'mfs/classical_filters_smoothers'],
  [('quadrature', 'mfs/one_dim/quadtures.py:moment_quadrature'), ('conditional moments', 'mfs/one_dim/moments.py:sde_cond_moments_tme'), ('factorisation', 'mfs/utils.py:ldl_chol'),
   ('smoother', 'mfs/classical_filters_smoothers/gfs.py:_gaussian_smoother_shared'), ('resampling', 'mfs/classical_filters_smoothers/resampling.py:continuous_resampling')],
  ['all routines that are functions of continuous arguments; the filters are covered by C05'],
  'differential (plain, compiled, batched), extrapolated finite differences, forward against reverse mode', 'dimension up to 3, order up to 5')

with open('properties.jsonl', 'w') as f:
    for a, _ in P:
        f.write(json.dumps(a) + '\n')
json.dump({a['id']: b for a, b in P}, open('vp/levels.json', 'w'), indent=1)
