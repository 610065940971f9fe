"""Write known_findings.json (committed; never written by a check)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [('C17', '78af28b', 'log-density of vector measurements solved with the upper instead of the lower Cholesky factor: wrong likelihoods for measurement dimension > 1 (also C18, C19)'),
       ('C17', '5b9f205', 'Kalman gain failed for measurement dimension > 1 (shape error / wrong gain) (also C18, C19)'),
       ('C07', 'c0dcbee', 'scaled central conditional moments of the one-dimensional Euler and TME-Normal constructions divided by the product of all powers of the scale instead of scale ** n'),
       ('C24', '63980f6', 'Legendre density approximation wrong on intervals other than [-1, 1]'),
       ('C25', '6929088', 'saddle point density approximation chose wrong roots'),
       ('C09', '88da10b', 'raw_moments_mvn_kan overflowed for total orders above 20'),
       ('C12', '607df2f', 'nd_cartesian_prod_2 did not return the Cartesian product'),
       ('C09', '676a950', 'zeroth central moment of a Normal was 0 instead of 1'),
       ('C20', '48fc191', 'Gauss-Hermite sigma points were wrong from order 26 on (64-bit integer overflow of the Hermite coefficients)'),
       ('C07', '6462135', 'plain TME conditional moments (one- and multidimensional) were NaN at a state equal to the centre (e.g. raw moments at zero) (also C16)'),
       ('C30', '0ae392b', 'the simulator of the prey-predator model raised an error whenever integration_steps was passed'),
       ('C08', '018c950', 'raw_to_central, central_to_raw and raw_to_scaled raised an error for sequences of 35 or more moments'),
       ('C10', '3a0bc16', 'GaussianSum1D.new(..., N=1) stored a zero variance and NaN scaled moments (out-of-range index clamped by JAX)'),
       ('C31', 'ff6a0ce', 'the derivative of central_moments_mvn_kan in the covariance was NaN for the zero multi-index'),
       ('C31', '8af160a', 'the reverse-mode derivative of ldl_chol (and of quadratures with the LDL option) was NaN whenever a pivot is negative'),
       ('C31', 'ab523b2', 'the derivative of simulate_sde(..., diagonal_cov=True) was NaN in two or more dimensions')]
FIND = [dict(property='C22', sub='independence', case=dict(init='split0', move='direct', T=2, key=0),
             what='bootstrap_filter/particle_filter give the whole key to init_sampler and split the same key for the steps: with two measurements and an initial '
                  'sampler that draws from split(key)[0] (as GaussianSum1D.sampler and GaussianSumND.sampler do), initial noise and first transition noise are identical'),
        dict(property='C22', sub='independence', case=dict(init='direct', move='split0', T=1, key=0),
             what='bootstrap_filter/particle_filter derive the resampling key from the key given to the transition sampler: a transition sampler that draws from '
                  'split(key)[0] shares its randomness with the resampler')]
json.dump(dict(findings=FIND, fixed=[f'fixed: property={p} {c} {w}' for p, c, w in FIX]), open(os.path.join(H, 'known_findings.json'), 'w'), indent=1)
