"""Writes properties.jsonl and MANIFEST.json (run by hand when the property list changes; no check runs it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, C, H = 'inputs', 'configurations', 'histories'
P = []


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


p('C01', 'A 1D moment quadrature reproduces every moment it was built from',
  'From the first 2n moments of any scalar distribution with at least n points of support (raw, central, or scaled central '
  'together with their mean and scale) the quadrature rule has n nodes and n nonnegative weights whose moments equal all '
  'the given ones up to rounding, so it integrates every polynomial of degree below 2n exactly. The nodes come out as real '
  'locations in the original coordinates whichever moment convention was used, and all factorisation options give the same '
  'rule.',
  [I, C], 'every valid moment sequence, mean, scale, and factorisation option',
  'tests use a few Gaussian and uniform moment sequences; the claim is over every realisable moment sequence and all options',
  ['mfs/one_dim/quadtures.py'],
  [('Hankel matrix, its triangular factor, Jacobi coefficients and eigen-decomposition (Golub-Welsch)',
    'mfs/one_dim/quadtures.py:moment_quadrature'), ('Hankel indices', 'mfs/one_dim/quadtures.py:hankel_indices')])

p('C02', 'A multi-dimensional moment quadrature matches the moments it was given',
  'From the multi-index moments up to total degree 2N-1 of any d-dimensional distribution with a nondegenerate moment matrix, '
  'the returned nodes and weights reproduce every one of those moments up to rounding. Raw, central (with mean) and scaled '
  'central (with mean and scale) moments and every factorisation and sorting option give a rule in the original coordinates '
  'with that property, and the Cartesian-product helpers list every combination exactly once.',
  [I, C], 'every valid multi-index moment array, mean, scale and option',
  'tests sample Gaussian moments at fixed seeds and small sizes',
  ['mfs/multi_dims/quadratures.py'],
  [('Gram and Hankel matrices, eigenproblems, Cartesian nodes and chained-inner-product weights',
    'mfs/multi_dims/quadratures.py:moment_quadrature_nd'), ('Cartesian products', 'mfs/multi_dims/quadratures.py:nd_cartesian_prod')])

p('C03', '1D moment filters follow the Bayes recursion in every moment convention',
  'For any transition moments, likelihood, starting moments and measurements, every step of the scalar moment filters '
  'reports the posterior moments obtained by predicting through the moment quadrature and reweighting the predicted '
  'quadrature by the likelihood, normalised to unit mass, in the convention asked for (raw, central about the reported mean, '
  'scaled by the reported scale). The reported negative log-likelihood is minus the accumulated log of the normalising '
  'constants, and the three conventions describe the same posterior.',
  [I, H], 'all models, initial moments and measurement histories',
  'tests compare one or two models at fixed data with a reference filter with loose tolerances',
  ['mfs/one_dim/filtering.py'],
  [('predict / quadrature / update scan', 'mfs/one_dim/filtering.py:moment_filter_rms, moment_filter_cms, moment_filter_scms')])

p('C04', 'Multi-dimensional moment filters follow the Bayes recursion in every mode',
  'For any transition moments (given per multi-index or per index), likelihood, starting moments and measurements, every '
  'step of the multi-dimensional moment filters reports the posterior moments obtained by predicting through the moment '
  'quadrature and reweighting by the likelihood, in the convention asked for and centred and scaled at the reported mean and '
  'scale. The negative log-likelihood is minus the accumulated log normalising constants, and an ill-sized moment array is '
  'rejected with a ValueError.',
  [I, H, C], 'all models, moment modes, initial moments and measurement histories',
  'tests run one model at fixed data per mode',
  ['mfs/multi_dims/filtering.py'],
  [('predict / quadrature / update scan', 'mfs/multi_dims/filtering.py:moment_filter_nd_rms, moment_filter_nd_cms, moment_filter_nd_scms')])

p('C05', 'Multi-index tables, ranks and moment extraction agree on one graded order',
  'The generated table lists every multi-index of the requested degrees exactly once in graded lexicographic order; its '
  'length and the rank reported for any multi-index agree with that table, including when a lower degree bound is used. The '
  'Gram and Hankel index arrays point, for every pair of basis monomials, at the moment of their product (times each '
  'coordinate), and extracting moments, means, covariances or marginals from a moment array returns the entries of those '
  'names.',
  [I, C], 'every dimension, degree bound, multi-index and moment array',
  'tests check a few (d, N) pairs', ['mfs/multi_dims/multi_indices.py', 'mfs/multi_dims/moments.py'],
  [('enumeration, rank and size formulae', 'mfs/multi_dims/multi_indices.py'),
   ('extraction', 'mfs/multi_dims/moments.py:extract_moments, extract_mean, extract_cov, marginalise_moments')])

p('C06', 'Moment conversions are exact and invertible',
  'Converting a scalar moment sequence between raw, central and scaled forms gives the moments of the same distribution and '
  'round trips return the original numbers; the cumulants computed from scaled moments are the cumulants of that '
  'distribution (mean, variance, and the higher logarithmic derivatives).',
  [I], 'every moment sequence, mean and scale', 'tests use Gaussian and a few random sequences',
  ['mfs/one_dim/moments.py'],
  [('binomial sums', 'mfs/one_dim/moments.py:raw_to_central, central_to_raw, raw_to_scaled, scaled_to_central'),
   ('partial Bell sums', 'mfs/one_dim/moments.py:sms_to_cumulants')])

p('C07', 'Closed-form Gaussian, uniform and mixture moments and densities are exact',
  'Central and raw moments of scalar and multivariate Gaussians of any order, moments of uniform boxes, and the raw moments, '
  'mean, variance or covariance and density of Gaussian mixtures equal the defining integrals for every mean, positive '
  'definite covariance, weights and bounds; the independent algorithms for the same moment agree. Drawing from a mixture '
  'picks a component by its weight and returns an affine Gaussian draw of that component, with independent randomness for '
  'every draw.',
  [I, C], 'every mean, covariance, mixture and order', 'tests check a few numeric means and covariances to some order',
  ['mfs/one_dim/moments.py', 'mfs/multi_dims/moments.py', 'mfs/utils.py'],
  [('Gaussian moments', 'mfs/one_dim/moments.py, mfs/multi_dims/moments.py'),
   ('mixtures', 'mfs/utils.py:GaussianSum1D, GaussianSumND')])

p('C08', 'SDE conditional-moment generators return moments of the stated approximation',
  'For any drift, dispersion, state and time step, the Euler generators return exactly the raw, central and scaled '
  'conditional moments of the Gaussian Euler-Maruyama step, the Gaussian TME generators those of the Gaussian with the TME '
  'mean and covariance of the requested order, and the pure TME generators the Taylor expansion in the time step of the '
  'conditional expectation of each monomial. All the conventions, the mean and the scale or covariance functions of one '
  'generator describe the same conditional distribution.',
  [I, C], 'every drift, dispersion, state, time step, expansion order and multi-index',
  'tests use one or two SDEs at fixed points', ['mfs/one_dim/moments.py', 'mfs/multi_dims/moments.py'],
  [('generators', 'mfs/one_dim/moments.py:sde_cond_moments_tme, sde_cond_moments_tme_normal, sde_cond_moments_euler'),
   ('generators', 'mfs/multi_dims/moments.py:sde_cond_moments_euler_maruyama, sde_cond_moments_tme_normal, sde_cond_moments_tme')])

p('C09', 'Kalman filter and RTS smoother are exact Gaussian conditioning',
  'For every linear-Gaussian model, initial state and measurement sequence, of any state and measurement dimension, the '
  'Kalman filter reports the mean and covariance of the state given the measurements so far and the cumulative negative log '
  'marginal likelihood, and the RTS smoother the mean and covariance given all measurements. The smoothed and the filtered '
  'estimates agree at the last time.',
  [I, H], 'all model matrices, initial states and measurement histories',
  'tests use scalar measurements and fixed matrices', ['mfs/classical_filters_smoothers/gfs.py'],
  [('prediction, update and backward gain', 'mfs/classical_filters_smoothers/gfs.py:kf, rts')])

p('C10', 'Nonlinear Gaussian filters and smoothers follow their defining recursions',
  'For any model functions, the extended and sigma-point filters and smoothers (discrete and continuous-discrete) compute '
  'the Gaussian recursion with, respectively, the linearised and the sigma-point moments of the model, one classical '
  'fourth-order Runge-Kutta step of the moment equations per interval in the continuous-discrete versions, and the '
  'cumulative Gaussian negative log-likelihood. On affine discrete-time models they coincide with the Kalman filter and RTS '
  'smoother, and the Jacobian-mode and constant-noise options do not change the result.',
  [I, H, C], 'all model functions, states, time steps, rules and measurement histories',
  'tests compare with the Kalman filter on fixed scalar-measurement models', ['mfs/classical_filters_smoothers/gfs.py',
                                                                             'mfs/classical_filters_smoothers/quadratures.py'],
  [('EKF, EKS, sigma-point and continuous-discrete versions', 'mfs/classical_filters_smoothers/gfs.py'),
   ('Runge-Kutta steps', 'mfs/classical_filters_smoothers/quadratures.py:rk4_m_cov, rk4_m_cov_backward')])

p('C11', 'Sigma-point rules integrate their polynomials exactly against Gaussians',
  'Cubature and Gauss-Hermite rules have weights summing to one and integrate every polynomial of their degree '
  '(3 in total, and 2p-1 per coordinate) exactly against every Gaussian, in any dimension; expectations taken from node evaluations, '
  'from a function, or of vector- and matrix-valued functions over batches of Gaussians are the same weighted sums.',
  [I, C], 'every mean, covariance, dimension, order and integrand', 'tests integrate a few functions at fixed Gaussians',
  ['mfs/classical_filters_smoothers/quadratures.py'],
  [('rules and expectations', 'mfs/classical_filters_smoothers/quadratures.py:SigmaPoints, gaussian_expectation')])

p('C12', 'Resampling copies particles in proportion to their weights',
  'For normalised weights and any random draw, systematic and stratified resampling return indices in range and in order, '
  'copying each particle once for every one of the N points (one per stratum of width 1/N, with a shared or an own uniform '
  'offset) that falls into its cumulative-weight interval; multinomial resampling does the same with N ordered uniforms '
  'formed from N+1 exponential spacings. Continuous resampling returns the samples\' piecewise-linear inverse distribution '
  'function (through the sorted samples at their mid-cumulative weights) evaluated at one uniform point per stratum.',
  [I], 'all weight vectors, samples and random draws', 'tests look at sample averages for one seed',
  ['mfs/classical_filters_smoothers/resampling.py'],
  [('resampling schemes', 'mfs/classical_filters_smoothers/resampling.py:systematic, stratified, multinomial, continuous_resampling')])

p('C13', 'Particle filters propagate, weight, resample and accumulate correctly',
  'For any transition or proposal, densities, resampling scheme and measurements, each step of the particle filters '
  'propagates the resampled particles of the previous step, weights each by its likelihood (times transition over proposal '
  'density in the general filter), and reports the particles picked by the resampling scheme for the normalised weights; the '
  'bootstrap filter reports the sum of minus the log mean weights as its negative log-likelihood. The initial draw, every '
  'propagation and every resampling receive different random keys.',
  [I, H], 'all models, particle sets, resampling schemes and measurement histories', 'tests check Monte-Carlo agreement at one seed',
  ['mfs/classical_filters_smoothers/smc.py'],
  [('scan over measurements', 'mfs/classical_filters_smoothers/smc.py:bootstrap_filter, particle_filter')])

p('C14', 'The grid filter solves the discretised Fokker-Planck/Bayes steps',
  'For any drift, dispersion, likelihood, grid, starting density and number of integration steps, each step of the grid '
  'filter integrates either the trapezoidal Chapman-Kolmogorov equation with the Gaussian Euler or TME transition, or the '
  'finite-difference forward Kolmogorov equation by explicit Euler steps, over the whole measurement interval, and then '
  'multiplies by the likelihood of that measurement. Reported densities have unit trapezoidal mass on the grid, and unknown '
  'prediction methods are rejected with an error.',
  [I, C, H], 'all models, grids, densities, step counts and measurements', 'tests use one model, one grid',
  ['mfs/classical_filters_smoothers/brute_force.py'],
  [('prediction and update', 'mfs/classical_filters_smoothers/brute_force.py:brute_force_filter')])

p('C15', 'LDL, Cholesky-like factors and Lanczos tridiagonalisation are exact',
  'For every symmetric matrix with nonvanishing pivots the LDL factors are unit lower triangular and diagonal and reproduce '
  'the matrix; the derived Cholesky factor is the Cholesky factor for positive definite input and clips pivots as documented '
  'otherwise. Lanczos returns orthonormal vectors and the tridiagonal projection of the matrix onto them starting from the '
  'normalised start vector, and its Ritz pairs are the eigenpairs of that projection.',
  [I], 'all matrices, start vectors and sizes', 'tests use random matrices at a fixed seed', ['mfs/utils.py'],
  [('factorisations', 'mfs/utils.py:ldl, ldl_chol'), ('Krylov projection', 'mfs/utils.py:lanczos, lanczos_ritz')])

p('C16', 'Bell and Hermite polynomials, gamma, Taylor quadrature and batching are exact',
  'Partial and complete Bell polynomials and probabilists\' Hermite polynomials equal their combinatorial definitions for '
  'every order and argument; Taylor quadrature equals the Taylor sum of derivatives against the given central moments and is '
  'exact for polynomials within its order; batching a list of functions evaluates the i-th function at the shared arguments '
  'for every position i. The gamma, factorial and binomial functions have their textbook values.',
  [I, C], 'all orders and arguments', 'tests compare a few orders with tables', ['mfs/utils.py', 'mfs/one_dim/quadtures.py'],
  [('polynomials', 'mfs/utils.py:partial_bell, complete_bell, hermite_probabilist'), ('batching', 'mfs/utils.py:vmap_list_of_funcs'),
   ('Taylor rule', 'mfs/one_dim/quadtures.py:taylor_quadrature, make_derivatives')])

p('C17', 'Density approximations and characteristic functions reproduce their inputs',
  'The Gram-Charlier and Legendre expansions are densities of unit mass whose moments equal the given ones up to the number '
  'supplied, on any interval; the saddle-point approximation evaluates the saddle-point formula at the real root of the saddle '
  'equation nearest to the Gaussian saddle point; the characteristic function from moments is the quadrature expectation of exp(izX), the one from a density and '
  'the Fourier inversion are the trapezoidal integrals of their definitions.',
  [I, C], 'all moment sequences, intervals and arguments', 'tests plot or compare with one Gaussian',
  ['mfs/one_dim/pdf_approximations.py', 'mfs/one_dim/moments.py'],
  [('expansions', 'mfs/one_dim/pdf_approximations.py'), ('characteristic functions', 'mfs/one_dim/moments.py:characteristic_fn, characteristic_from_pdf')])

p('C18', 'LTI discretisation is exact and SDE simulation follows the given moments',
  'Discretising a linear time-invariant SDE returns the exact transition matrix and process-noise covariance of the '
  'interval for every drift matrix, dispersion and time step. Simulation advances, at every integration step, with the '
  'conditional mean and covariance given for the sub-interval, uses fresh Gaussian noise at every sub-step, and reports the '
  'state at the end of each time interval.',
  [I, C], 'all matrices, time steps, initial states and noise', 'tests compare one matrix and one simulated mean',
  ['mfs/utils.py'], [('matrix fraction decomposition', 'mfs/utils.py:discretise_lti_sde'), ('scan', 'mfs/utils.py:simulate_sde')])

p('C19', 'The posterior Cramer-Rao recursion is the exact information recursion',
  'For given trajectories, measurements and starting information, the matrix reported at each time is the one obtained from '
  'the Tichavsky recursion with the Monte-Carlo averages of the Hessians of the negative log transition and measurement '
  'densities at that time and the one before. For linear-Gaussian models it equals the inverse of the Kalman filter '
  'covariance at every step whatever the trajectories are.',
  [I, H], 'all models, trajectories and measurements', 'tests use one linear model at a fixed seed', ['mfs/utils.py'],
  [('information recursion', 'mfs/utils.py:posterior_cramer_rao')])

p('C20', 'The bundled state-space models are what they are documented to be',
  'For every state, parameter and measurement, the drift and dispersion of the bundled benchmark models equal the equations '
  'they are named after (Benes, double well, satellite orbit, prey-predator), each measurement probability is the Bernoulli or '
  'Poisson mass at the reported emission and sums to one, and the initial distribution and its moments are consistent at '
  'every requested order. The time grid has the reported number of steps at the reported spacing, and simulated '
  'trajectories follow the same drift and dispersion with one hundred sub-steps per interval (third-order Taylor moment '
  'expansion, or Milstein for prey-predator), fresh noise at every sub-step, from an initial state of the reported '
  'distribution and with measurements of the reported emission.',
  [I, C], 'all states, parameters, measurements and moment orders', 'tests only use the models as fixtures',
  ['mfs/one_dim/ss_models.py', 'mfs/multi_dims/ss_models.py'],
  [('models', 'mfs/one_dim/ss_models.py:benes_bernoulli, well_poisson'), ('models', 'mfs/multi_dims/ss_models.py:satellite_orbital_stability, prey_predator')])

p('C21', 'Moment filters converge to the true posterior as the number of moments grows',
  'As the number of moments tends to infinity the moment filter\'s posterior expectations converge to those of the exact '
  'filter for models satisfying the stability conditions.',
  [I, H, C], 'all models in the class, in the limit of infinitely many moments', 'no finite run can show a limit',
  ['mfs/one_dim/filtering.py', 'mfs/multi_dims/filtering.py'], [('moment quadrature filtering', 'mfs/one_dim/filtering.py')])

p('C22', 'Filters stay numerically stable over long runs in floating point',
  'The filters return finite estimates with nonnegative variances over arbitrarily long measurement sequences in single and '
  'double precision arithmetic.',
  [I, H, C], 'all models, measurement sequences of any length and precisions', 'tests run a few hundred steps of one model',
  ['mfs/one_dim/filtering.py', 'mfs/multi_dims/filtering.py'], [('stable factorisation option', 'mfs/one_dim/quadtures.py')])

NA = {
    'C21': 'a statement about a limit; no bounded symbolic execution of the code can decide it (it is a theorem about the method, not '
           'about this code)',
    'C22': 'needs bit-precise floating-point reasoning through cholesky/eigh/LAPACK and unbounded histories; the solvers cannot '
           'bit-blast these kernels and the encoding here is over the reals',
}
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for d in P:
    i = d['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif not os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')):
        na.append(dict(property=i, reason='the check is not built yet'))
    else:
        checks.append(dict(
            property=i, quick_cmd=f'python3 run.py {i} --tier quick', thorough_cmd=f'python3 run.py {i} --tier thorough',
            evidence_file=f'evidence/{i}.json',
            technique='symbolic execution of the real code (jaxpr and Python level) with exact real arithmetic, SMT (z3/cvc5) '
                      'verdict over all inputs within stated sizes, counterexamples replayed on the code',
            level='model_checking' if False else 'other',
            level_note='bounded symbolic verification: every real-valued input of each listed size, dimension, option and step '
                       'count is covered by SMT queries over the encoding of the current source; sizes are bounded, arithmetic '
                       'is over the reals'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'),
          indent=1)
