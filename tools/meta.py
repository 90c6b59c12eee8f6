"""Writes properties.jsonl and MANIFEST.json from one table. Run: python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONE, ND, CL = 'mfs/one_dim/', 'mfs/multi_dims/', 'mfs/classical_filters_smoothers/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=[dict(name=n, where=w) for n, w in mechanism], technique=technique, note=note))


prop('C01', '1D moment filters are exact Bayesian filters on finite-support models',
     'If the state of a 1D model lives on n atoms and 2n moments are used, then after every measurement of every history the raw, central and scaled moment '
     'filters return exactly the posterior moments (and mean and scale), and the returned value is exactly -log p(y_1..y_T). '
     'This holds with and without the stable option, for scalar and vector measurements, unnormalised likelihoods, and any location or spread of the atoms the representation can resolve.',
     ['histories', 'inputs', 'configurations'], 'all measurement histories up to the bound, all models of the family, representations, numbers of moments and flags',
     'The tests run one simulated history on two models and compare with loose Monte Carlo or grid tolerances; a wrong term that matters only for some history, number of moments or flag passes.',
     [ONE + 'filtering.py', ONE + 'quadtures.py'],
     [('prediction and Bayes update of each representation', ONE + 'filtering.py: moment_filter_rms, moment_filter_cms, moment_filter_scms'), ('Gauss rule of the moments', ONE + 'quadtures.py: moment_quadrature')],
     'explicit-state exploration of all measurement histories of rational hidden Markov models; every state replayed on the real filter',
     'Exhaustive over histories up to length 5 (quick) / 7 (thorough) over 3 symbols, and all periodic long histories; oracle is exact rational Bayes. Trusts JAX/XLA and float64 rounding within stated tolerances.')

prop('C02', 'Multidimensional moment filters are exact on finite-support models',
     'If the state of a d-dimensional model lives on a lattice-like set of as many atoms as the quadrature has basis monomials, then after every measurement of every history the raw, central and scaled '
     'multidimensional moment filters return exactly the posterior moments (mean, scale) in graded lexicographic order and exactly -log p(y_1..y_T). '
     'Both accepted signatures of the conditional moment functions (by multi-index and by position) and the stable option give the same results.',
     ['histories', 'inputs', 'configurations'], 'all histories up to the bound, dimensions 1 to 5, numbers of moments, representations, signatures and flags',
     'The tests use dimension 1 and 2 with one history and compare to a 1D filter or Monte Carlo with loose tolerances; higher dimensions, the scaled representation and both signatures are barely reached.',
     [ND + 'filtering.py', ND + 'quadratures.py'],
     [('prediction and Bayes update', ND + 'filtering.py: moment_filter_nd_rms, moment_filter_nd_cms, moment_filter_nd_scms'), ('multidimensional Gauss rule', ND + 'quadratures.py: moment_quadrature_nd')],
     'explicit-state exploration of all measurement histories of rational hidden Markov models in R^d; every state replayed on the real filter',
     'Exhaustive over histories up to the (d, N)-dependent horizon; exact rational oracle. Trusts JAX/XLA.')

prop('C03', 'On continuous models the moment filters follow the Gauss-projection recursion',
     'For every measurement history of a model with continuous state, the moments after each measurement and the negative log-likelihood are those of the recursion: Gauss rule of the filtering moments, '
     'integrate the conditional moments, Gauss rule of the predicted moments, Bayes rule. '
     'The result is therefore the same in the raw, central and scaled representations and with the stable option, in one and several dimensions, and for coordinates that are independent it is that of the separate filters.',
     ['histories', 'inputs', 'configurations'], 'all histories up to the bound over 3 symbols, models, dimensions, numbers of moments and representations',
     'Tests compare one history of two benchmark models with tolerances of the order of the approximation error.',
     [ONE + 'filtering.py', ND + 'filtering.py', ONE + 'quadtures.py', ND + 'quadratures.py'],
     [('1D recursion', ONE + 'filtering.py'), ('multidimensional recursion', ND + 'filtering.py')],
     'exhaustive exploration of the history tree of a 60-digit model of the recursion; every trace replayed on the real filters',
     'Model is the recursion in 40 to 60 digits; conformance on every history. Smooth, moderately conditioned models only.')

prop('C04', 'Gradients of the negative log-likelihood are exact',
     'For every measurement history the derivatives of the negative log-likelihood returned by the moment filters (all representations, with and without the stable option, one and several dimensions) and the Kalman filter, '
     'with respect to parameters of the transition, the measurement model, the initial law and the support, computed by reverse- or forward-mode differentiation, are finite and equal the derivatives of the exact likelihood.',
     ['histories', 'inputs', 'configurations'], 'all histories up to the bound, four parameter directions, representations, flags and differentiation modes',
     'Tests never differentiate a filter; parameter estimation in the examples relies on it.',
     [ONE + 'filtering.py', ND + 'filtering.py', ONE + 'quadtures.py', ND + 'quadratures.py', 'mfs/utils.py', CL + 'gfs.py'],
     [('differentiable recursion', ONE + 'filtering.py, ' + ND + 'filtering.py'), ('differentiable factorisation', 'mfs/utils.py: ldl, ldl_chol')],
     'exhaustive exploration of the history tree with exact dual-number (rational) states; derivatives of the real filters compared on every trace',
     'Exact derivatives by rational dual arithmetic; finite-support models with well separated nodes.')

prop('C05', '1D moment quadrature is the Gauss rule of its moments',
     'From 2n valid moments (raw, central with the mean, or scaled with mean and scale) of any law the 1D moment quadrature returns n nodes and non-negative weights which reproduce all 2n moments, are the atoms and masses when the law has n atoms, and are the Gauss nodes otherwise; '
     'the sort, factorisation and execution options do not change the rule, and with the LDL completion moments of fewer atoms than nodes still give a finite rule reproducing them. '
     'The Taylor quadrature integrates polynomials up to its order exactly from central moments.',
     ['inputs', 'configurations'], 'all atom sets of a rational grid with all weight patterns, and named continuous laws; all node counts and options',
     'Tests use a Normal and a mixture law at a few orders.',
     [ONE + 'quadtures.py', 'mfs/utils.py'],
     [('Golub-Welsch', ONE + 'quadtures.py: moment_quadrature'), ('Taylor rule', ONE + 'quadtures.py: taylor_quadrature')],
     'exhaustive enumeration of rational laws x options; exact oracle; each replayed on the implementation',
     'Exact rational oracle for finite laws, 60-digit Gauss rules for continuous ones.')

prop('C06', 'Multidimensional moment quadrature integrates all polynomials to degree 2N-1',
     'From the moments up to degree 2N-1 of a law on R^d (raw, central with the mean, or scaled with mean and scale), the multidimensional quadrature returns nodes and weights which integrate every monomial of total degree up to 2N-1 exactly, in any dimension, and laws on a unisolvent set of as many atoms as basis monomials are reproduced completely; the sort and factorisation options do not change the rule. '
     'Cartesian products of nodes enumerate every combination exactly once, in the order that matches the weights.',
     ['inputs', 'configurations'], 'all laws of the families, d up to 6, N up to 5, representations and options',
     'Tests sample a few laws in d = 2 and 3.',
     [ND + 'quadratures.py', 'mfs/utils.py'],
     [('multiplication operators and chained inner products', ND + 'quadratures.py: moment_quadrature_nd'), ('products of nodes', ND + 'quadratures.py: nd_cartesian_prod, nd_cartesian_prod_2, nd_cartesian_prod_indices')],
     'exhaustive enumeration of laws x (d, N) x options against rational integrals and a 40-digit reference algorithm',
     'Exact rational integrals; nodes and weights against a 40-digit implementation of the algorithm.')

prop('C07', 'Multi-index bookkeeping is a bijection in graded lexicographic order',
     'For all dimensions and degrees: the generated collection contains every multi-index exactly once in graded lexicographic order, its size is the stated one, the position of a multi-index is its index in the collection, '
     'the Gram and Hankel index tables point at the sums of multi-indices, and extracting or marginalising moments, means and covariances picks the right entries.',
     ['inputs'], 'all (d, lower, upper) within the bounds and all multi-indices in them',
     'Tests check a handful of (d, degree) pairs.',
     [ND + 'multi_indices.py', ND + 'moments.py'],
     [('enumeration and ranking', ND + 'multi_indices.py'), ('extraction', ND + 'moments.py: extract_moments, extract_mean, extract_cov, marginalise_moments')],
     'exhaustive enumeration of all collections and successor steps within the bounds, exact comparison',
     'Exact integers, no tolerance.')

prop('C08', 'Conversions between moments and cumulants are exact and invertible',
     'Any sequence of conversions between raw, central and scaled moments ends in the representation of the same law, for moment vectors of any length; scaled moments convert to the exact cumulants. '
     'The complete and partial Bell polynomials and the probabilists\' Hermite polynomials equal their combinatorial definitions.',
     ['inputs', 'histories'], 'all operation sequences up to the depth over a family of rational laws and all lengths',
     'Tests convert a few Normal moment vectors once.',
     [ONE + 'moments.py', 'mfs/utils.py'],
     [('conversions', ONE + 'moments.py: raw_to_central, central_to_raw, raw_to_scaled, scaled_to_central, sms_to_cumulants'), ('polynomials', 'mfs/utils.py: partial_bell, complete_bell, hermite_probabilist')],
     'explicit-state exploration of all conversion sequences from rational laws, each executed on the implementation',
     'Exact rational oracle; set partitions enumerate the Bell polynomials.')

prop('C09', 'Moments of Normal, uniform and Gaussian-sum laws are exact',
     'For every mean, covariance (diagonal, correlated or singular) and multi-index the raw and central moments of Normal laws are the exact moments, whether inputs are NumPy or JAX arrays; moments of uniform boxes likewise. '
     'Gaussian-sum objects report the exact raw, central and scaled moments, mean, (co)variance and density of their mixture, for any number of moments.',
     ['inputs'], 'all multi-indices up to the degree for all laws of a rational family',
     'Tests use one or two laws and compare formulas of the package with each other.',
     [ONE + 'moments.py', ND + 'moments.py', 'mfs/utils.py'],
     [('Normal moments', ONE + 'moments.py: raw_moment_of_normal, central_moment_of_normal; ' + ND + 'moments.py: raw_moments_mvn_kan, central_moments_mvn_kan, raw_moments_mvn_mgf'), ('mixtures', 'mfs/utils.py: GaussianSum1D, GaussianSumND')],
     'exhaustive enumeration of (law, multi-index) pairs against the exact rational moment recursion',
     'Exact rational oracle.')

prop('C10', 'SDE conditional moments are those of the stated approximation, at every point',
     'For every SDE, time step and conditioning point (including the origin and the conditional mean) the conditional raw, central and scaled moments, mean and variance built by the Euler-Maruyama, TME-Normal and TME constructors agree with each other as moments of one law and equal, for every order, the moments of the corresponding Normal approximation or the generator expansion of the stated order. '
     'This holds in one and several dimensions and for batches of points.',
     ['inputs', 'configurations'], 'all SDEs of the families, schemes, expansion orders, time steps, points and moments within the bounds',
     'Tests compare a few moments at one point with Monte Carlo or with a linear SDE.',
     [ONE + 'moments.py', ND + 'moments.py', 'mfs/utils.py'],
     [('1D constructors', ONE + 'moments.py: sde_cond_moments_tme, sde_cond_moments_tme_normal, sde_cond_moments_euler'), ('multidimensional constructors', ND + 'moments.py: sde_cond_moments_euler_maruyama, sde_cond_moments_tme_normal, sde_cond_moments_tme')],
     'exhaustive enumeration of (SDE, scheme, order, dt, point, moment) against exact differential-polynomial algebra of the generator',
     'Powers of the generator in exact rational algebra; the tme package is executed, not modelled.')

prop('C11', 'Kalman filter and RTS smoother are exact Gaussian conditioning',
     'For every linear Gaussian model, state and measurement dimension and every measurement history, the Kalman filter returns at every step the exact conditional mean and covariance and the exact cumulative negative log-likelihood, '
     'and the RTS smoother the exact conditional means and covariances given all measurements.',
     ['histories', 'inputs', 'configurations'], 'all histories up to the bound; dimensions 1 to 3; models with singular, correlated and badly scaled noise',
     'Tests use a 1D measurement and one history.',
     [CL + 'gfs.py'],
     [('filter', CL + 'gfs.py: kf'), ('smoother', CL + 'gfs.py: rts')],
     'explicit-state exploration of all measurement histories; states are exact rational Gaussian posteriors; each replayed on the code',
     'Exact rational conditioning of the joint law; long histories against a 60-digit recursion.')

prop('C12', 'Extended and sigma-point filters and smoothers follow their definitions',
     'For every nonlinear model, measurement history, state and measurement dimension, integration rule and Jacobian or noise flag, the discrete-time extended and sigma-point Kalman filters and smoothers return at every step the mean, covariance and cumulative negative log-likelihood of their textbook recursions; on linear models they are the exact Gaussian filter and smoother.',
     ['histories', 'inputs', 'configurations'], 'all histories up to the bound, dimensions 1 to 3, cubature and Gauss-Hermite rules, flags, constant and state-dependent noise',
     'Tests check linear models or compare with each other on one history, with scalar measurements.',
     [CL + 'gfs.py', CL + 'quadratures.py'],
     [('filters', CL + 'gfs.py: ekf, sgp_filter'), ('smoothers', CL + 'gfs.py: eks, sgp_smoother')],
     'exhaustive exploration of the history tree of independently written recursions; every trace replayed on the real filters',
     'Reference uses hand-written Jacobians and independently generated sigma points.')

prop('C13', 'Continuous-discrete filters and smoothers integrate their moment ODEs by RK4',
     'For every SDE, sampling interval, measurement history and dimension the continuous-discrete extended and sigma-point filters return at every step the result of one classical RK4 step of the mean/covariance ODE followed by the measurement update, and the smoothers the RK4 step backwards of the smoothing ODE with the filtering result at the left end of the interval held fixed; on linear SDEs the filters agree with the exact transition to the order of RK4.',
     ['histories', 'inputs', 'configurations'], 'all histories up to the bound, dimensions 1 to 3, rules, intervals, flags',
     'Tests run one history and compare with a discrete filter loosely.',
     [CL + 'gfs.py', CL + 'quadratures.py'],
     [('filters and smoothers', CL + 'gfs.py: cd_ekf, cd_eks, cd_sgp_filter, cd_sgp_smoother'), ('integrators', CL + 'quadratures.py: rk4_m_cov, rk4_m_cov_backward')],
     'exhaustive exploration of the history tree of an independent RK4 recursion; every trace replayed on the real filters',
     'As C12, plus the exact transition density for linear SDEs.')

prop('C14', 'Filters are causal and restartable; smoothers only look ahead',
     'For every deterministic filter and every measurement history, the output at time t depends only on the first t measurements, restarting the filter from its own output at any time continues the run unchanged, and negative log-likelihoods of the pieces add up to that of the whole history. '
     'Every smoother agrees with its filter at the last time, and smoothing a tail of the filtering results gives the tail of the smoothing results; repeating, batching or compiling a call does not change its result.',
     ['histories', 'configurations'], 'all histories up to the bound and all cut positions, for all filters and smoothers except particle filters; long periodic histories cut at every position',
     'No test cuts a history.',
     [ONE + 'filtering.py', ND + 'filtering.py', CL + 'gfs.py', CL + 'brute_force.py'],
     [('scan over the measurements', 'every filter'), ('backward scan', CL + 'gfs.py smoothers')],
     'exhaustive exploration of all histories and all cuts on the real code (metamorphic, stateless)',
     'No external oracle: the relation between executions is the property. Particle filters are excluded since their keys depend on the length of the history.')

prop('C15', 'Sigma-point rules integrate Gaussian polynomials to their stated degree',
     'For every dimension and order the cubature and Gauss-Hermite rules have weights that sum to one and the stated number of points, integrate every monomial of total degree up to 3 (cubature) or of degree up to 2p-1 per coordinate (Gauss-Hermite of order p) against the standard Gaussian exactly, and the same holds through mean and Cholesky factor for every Gaussian law, for scalar, vector and matrix valued integrands. '
     'The Gaussian expectation helper computes the same integral.',
     ['inputs', 'configurations'], 'all monomials within the degrees, orders to 40 in 1D and lower in higher dimensions, all laws of a family',
     'Tests check a few low orders and integrands.',
     [CL + 'quadratures.py'],
     [('rules', CL + 'quadratures.py: SigmaPoints'), ('expectation', CL + 'quadratures.py: gaussian_expectation')],
     'exhaustive enumeration of (rule, dimension, order, monomial, law) against exact rational Gaussian moments',
     'Exact rational oracle.')

prop('C16', 'Resampling is unbiased and respects the support, for every random outcome',
     'For every weight vector and every outcome of the uniform generator, the resampling schemes return as many indices as weights, in range, sorted in the order of the strata or order statistics, never a particle of zero weight, and equal to the inverse distribution function at the scheme\'s points; systematic and stratified resampling are exactly unbiased with offspring numbers within one (two) of n times the weight. '
     'Continuous resampling returns the stratified draws from the interpolated distribution function, in the range of the particles.',
     ['inputs', 'schedules'], 'all weight vectors of a dyadic grid, all tapes of uniforms of a grid including 0 and the largest double below one',
     'Tests draw random weights and compare averages with loose tolerances.',
     [CL + 'resampling.py'],
     [('schemes', CL + 'resampling.py: systematic, stratified, multinomial, continuous_resampling')],
     'exhaustive enumeration of weight vectors x random tapes on the real code with the generator replaced',
     'The uniform generator is replaced by the enumerated tape; weights on a dyadic grid so that float sums are exact.')

prop('C17', 'Particle filters are unbiased weighted-sample recursions with independent draws',
     'For every outcome of every random draw the bootstrap and the general particle filter propagate, weight, and resample as defined and return the filtering samples (and, for the bootstrap filter, the negative log of the product of average weights); averaged over all outcomes the likelihood estimate is exactly the likelihood. '
     'Every random key is used once, results do not depend on compilation, and with continuous resampling the likelihood estimate is differentiable with the right derivative.',
     ['schedules', 'histories', 'inputs'], 'all outcomes of all draws (initial particles, transitions, resampled indices) for small numbers of particles and steps',
     'Tests run one seed with many particles and loose tolerance, which cannot see correlated keys or a biased estimate.',
     [CL + 'smc.py', CL + 'resampling.py'],
     [('recursion', CL + 'smc.py: bootstrap_filter, particle_filter')],
     'stateless model checking of the real code: all sequences of random choices by re-execution, probabilities summed exactly',
     'Exhaustive choice tree for small models; rational oracle. Monte Carlo convergence itself is not claimed.')

prop('C18', 'The grid filter is the exact discretised Bayes recursion',
     'For every SDE, grid, prediction method, number of sub-steps and measurement history the brute-force filter returns at every step a density that integrates to one and equals the trapezoidal Chapman-Kolmogorov prediction with the stated transition density (or the Euler sub-steps of the central finite-difference forward equation) multiplied by the likelihood and normalised; unknown methods are refused.',
     ['histories', 'inputs', 'configurations'], 'all histories up to the bound, all methods, sub-steps and SDEs of the family',
     'A test compares one history with a moment filter loosely.',
     [CL + 'brute_force.py'],
     [('prediction and update', CL + 'brute_force.py: brute_force_filter')],
     'exhaustive exploration of the history tree of a reference grid recursion with exact transition moments; every trace replayed',
     'Transition moments from exact generator algebra; grid arithmetic in NumPy.')

prop('C19', 'Density approximations reproduce the moments they are built from',
     'For every law and order, the Gram-Charlier and Legendre expansions are the exact expansions of that order and reproduce the moments they were built from on their interval, the truncated cumulant generating function and the saddle-point density satisfy their defining equations, and characteristic functions computed from moments or from a tabulated density are the transform of the law, with the inverse Fourier transform recovering densities.',
     ['inputs', 'configurations'], 'all laws of a rational family, all orders up to the bound, all points of a grid',
     'Tests compare plots of one or two laws with loose tolerances.',
     [ONE + 'pdf_approximations.py', ONE + 'moments.py'],
     [('expansions', ONE + 'pdf_approximations.py: gram_charlier, legendre_poly_expansion, saddle_point, truncated_cumulant_generating_function, inverse_fourier'), ('transforms', ONE + 'moments.py: characteristic_fn, characteristic_from_pdf')],
     'exhaustive enumeration of laws x orders x points against exact rational expansions',
     'Exact rational oracle and defining equations.')

prop('C20', 'Linear SDE discretisation and SDE simulation are exact step maps',
     'For every drift matrix, dispersion and time step the discretisation returns the exact transition matrix and covariance, and composing two steps equals one long step. '
     'Simulated trajectories follow the stated recursion for every outcome of the Normal draws with the requested number of steps and sub-steps, each draw used once; lists of functions are evaluated element by element, and the Gaussian-sum samplers draw from the chosen component.',
     ['inputs', 'schedules'], 'all small integer drift matrices, dispersions and time steps; all tapes of increments over an alphabet',
     'Tests compare one matrix and Monte Carlo averages.',
     ['mfs/utils.py'],
     [('discretisation', 'mfs/utils.py: discretise_lti_sde'), ('simulation', 'mfs/utils.py: simulate_sde'), ('function lists', 'mfs/utils.py: vmap_list_of_funcs'), ('samplers', 'mfs/utils.py: GaussianSum1D, GaussianSumND')],
     'exhaustive enumeration of models and random tapes on the real code with the generator replaced; 60-digit power-series oracle',
     'Normal generator replaced by an enumerated tape.')

prop('C21', 'The posterior Cramer-Rao recursion is exact on every set of trajectories',
     'For every set of trajectories and measurements and every pair of log-densities the posterior Cramer-Rao recursion returns the information matrices defined by the Monte Carlo averages of the Hessians; on linear Gaussian models their inverses are the filtering covariances.',
     ['inputs', 'histories'], 'all trajectories over a grid up to the horizon, polynomial log-densities, dimensions 1 to 3',
     'Tests check one linear model.',
     ['mfs/utils.py'],
     [('recursion', 'mfs/utils.py: posterior_cramer_rao')],
     'explicit-state exploration of all trajectory prefixes with exact rational information matrices; each replayed on the code',
     'Exact rational oracle.')

prop('C22', 'LDL, modified Cholesky and Lanczos factorisations satisfy their equations',
     'For every symmetric matrix that has an LDL factorisation without pivoting, singular ones included, the LDL factorisation returns unit lower triangular and diagonal factors that reproduce it; the modified Cholesky factor of a positive definite matrix is its Cholesky factor, and of others a finite lower triangular factor that differs only through replaced pivots. '
     'The Lanczos process returns an orthonormal basis and a tridiagonal projection, and its Ritz values and vectors are eigenpairs when run to completion.',
     ['inputs'], 'all small integer symmetric matrices (definite, semi-definite of all ranks, indefinite), all start vectors of a grid',
     'Tests factorise a random positive definite matrix.',
     ['mfs/utils.py'],
     [('factorisations', 'mfs/utils.py: ldl, ldl_chol'), ('Lanczos', 'mfs/utils.py: lanczos, lanczos_ritz')],
     'exhaustive enumeration of small integer matrices against exact rational elimination',
     'Exact rational elimination; positive definite, semi-definite and indefinite matrices.')

prop('C23', 'Benchmark models are as defined, and filters on them are right end to end',
     'The benchmark models provide the stated drift, dispersion, initial law, emission and normalised outcome probabilities for all arguments, and their simulators follow the stated recursion for every outcome of the random draws. '
     'For every measurement history of a benchmark model the moment filters built from its pieces, in every representation and with every transition approximation, agree with each other, with the high-precision recursion, and with the exact grid filter to the accuracy of the representation.',
     ['histories', 'inputs', 'configurations'], 'all histories up to the bound on the three benchmark models; all outcomes and a grid of states for the definitions',
     'Tests run one simulated history per model.',
     [ONE + 'ss_models.py', ND + 'ss_models.py', ONE + 'filtering.py', ND + 'filtering.py'],
     [('models', ONE + 'ss_models.py: benes_bernoulli, well_poisson; ' + ND + 'ss_models.py: satellite_orbital_stability, prey_predator')],
     'exhaustive exploration of all histories of the benchmark models against a 60-digit recursion and a fine-grid Bayes recursion',
     'Simulators with the generator replaced by tapes; grid filter as gross-error bound.')

NOT = [dict(id='C90', title='Moment filters converge to the exact filter as the number of moments grows',
            statement='For models with sufficiently regular laws the filtering moments and likelihood converge to the exact ones as the number of moments tends to infinity.',
            over=['inputs', 'histories'], text='all orders', why='Tests sample a few orders.',
            files=[ONE + 'filtering.py'], mechanism=[dict(name='recursion', where=ONE + 'filtering.py')],
            reason='An asymptotic statement in an unbounded order; bounded exploration decides the recursion at each order (C01-C03) but not a limit.'),
       dict(id='C91', title='Samplers and particle filters have the right law as the number of draws grows',
            statement='Empirical averages of the samplers and particle filters converge to expectations of the stated laws.',
            over=['schedules'], text='all seeds', why='Tests draw one seed.',
            files=[CL + 'smc.py', 'mfs/utils.py'], mechanism=[dict(name='random draws', where=CL + 'smc.py')],
            reason='A statement about the law of the external pseudo-random generator; the machinery decides the map from draws to outputs (C16, C17, C20) exhaustively, and trusts the generator.')]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P + NOT:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mechanism'], hook_needed=None))) + '\n')
    m = dict(version=1, setup_cmd='bash setup.sh',
             checks=[dict(property=p['id'], quick_cmd=f"bash check {p['id']} quick", thorough_cmd=f"bash check {p['id']} thorough",
                          technique=p['technique'], level='model_checking', level_note=p['note']) for p in P],
             not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NOT],
             notes='No hooks are needed in /repo. Known findings and repairs: KNOWN_FINDINGS.json.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
