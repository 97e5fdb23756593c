#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = []


def prop(id, title, statement, qtext, why, files, mech, over=('inputs',), **kw):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))


MI, MM, MQ, MF, MS = (f'mfs/multi_dims/{x}.py' for x in ('multi_indices', 'moments', 'quadratures', 'filtering', 'ss_models'))
OM, OQ, OF, OP, OS = (f'mfs/one_dim/{x}.py' for x in ('moments', 'quadtures', 'filtering', 'pdf_approximations', 'ss_models'))
UT = 'mfs/utils.py'
GF, CQ, RS, SM, BF = (f'mfs/classical_filters_smoothers/{x}.py' for x in ('gfs', 'quadratures', 'resampling', 'smc', 'brute_force'))

prop('C01', 'Multi-index counting, enumeration and ranking in graded lexicographic order',
     'For every dimension and every pair of lower and upper degree, the reported number of multi-indices is the exact number of non-negative integer '
     'vectors whose degree lies between the two bounds (zero when the bounds cross). The enumeration lists exactly those vectors, each once, in graded '
     'lexicographic order, and the reported position of any multi-index equals the number of multi-indices that precede it in that order.',
     'all d >= 1, all 0 <= lower degree, all upper degrees, all multi-indices', 'the tests sample a few small d and degrees; a counting or ordering slip may show only in higher dimensions or degrees',
     [MI], [('sizeof_multi_indices', MI), ('graded_lexico_indexof_multi_index', MI), ('generate_graded_lexico_multi_indices', MI), ('find_indices', MI)])
prop('C02', 'Moment lookup tables and extractors address the right multi-index',
     'For every dimension and order, the index tables address, for basis functions i and j, the moment whose multi-index is the sum of the two basis '
     'multi-indices (and, in the k-th further table, that sum plus one in coordinate k). Extracting a moment, the mean vector, the second-moment/covariance matrix or the '
     'marginal moments of one coordinate returns exactly the entries of the moment collection with the corresponding multi-indices, also for stacked collections.',
     'all dimensions, all orders, all moment collections, with and without leading axes', 'tests use two or three dimensions and symmetric data in which swapped coordinates are invisible',
     [MI, MM], [('gram_and_hankel_indices_graded_lexico', MI), ('extract_moments/extract_mean/extract_cov/marginalise_moments', MM)])
prop('C03', 'One-dimensional moment quadrature is the Gauss rule of the given moments',
     'For any sequence of 2n moments (n >= 1) of a distribution with at least n support points, the rule has n nodes and weights, obtained from the spectral decomposition of the '
     'orthonormalised Hankel pencil, so that it reproduces all 2n given moments; with a mean and a scale the nodes are shifted and scaled accordingly. '
     'Sorting, when requested, orders the nodes ascendingly and permutes the weights with them; the stabilised option uses the completed LDL factor in place of the Cholesky factor.',
     'all n, all moment sequences with a positive definite Hankel matrix (any for the stabilised option), all means and positive scales, all option combinations',
     'tests use a handful of Gaussian and uniform moment sequences with small n', [OQ], [('moment_quadrature', OQ), ('hankel_indices', OQ)])
prop('C04', 'Multidimensional moment quadrature and Cartesian products',
     'For any dimension and order, the n-dimensional rule has one node per combination of the eigenvalues of the coordinate multiplication operators, with the weight given by the '
     'chain of eigenvector inner products, so that the total weight is the zeroth moment and polynomial moments within the degree are reproduced up to the commutation of the operators (exactly in one dimension). '
     'The Cartesian product of d vectors of n entries lists all n^d combinations, last coordinate fastest, entry k of each combination taken from vector k; mean and scale shift and scale the nodes coordinatewise.',
     'all d >= 1, all n >= 1, all moment collections with a positive definite Gram matrix', 'tests use d = 2, 3 with small n', [MQ],
     [('moment_quadrature_nd', MQ), ('nd_cartesian_prod_indices', MQ), ('nd_cartesian_prod', MQ), ('nd_cartesian_prod_2', MQ)])
prop('C05', 'One-dimensional moment filters: exact predict/update recursion and likelihood',
     'For any model and any sequence of measurements, the raw, central and scaled-central moment filters return at every time the moments (and mean, scale) obtained by alternating quadrature '
     'prediction through the conditional moments and the Bayes update with the measurement density, each step with the quadrature of the current moments. '
     'The returned negative log-likelihood is minus the sum over time of the log of the predictive density of each measurement.',
     'all orders N, all numbers of measurements, all conditional-moment functions, densities, initial moments and data, stabilised or not',
     'tests run a few models at fixed N and T with tolerances', [OF], [('moment_filter_rms', OF), ('moment_filter_cms', OF), ('moment_filter_scms', OF)], over=('inputs', 'histories'))
prop('C06', 'Raw, central and scaled filters describe the same filtering distribution',
     'Given equivalent initial moments and equivalent conditional moments, the raw, central and scaled-central moment filters produce equivalent filtering moments, means and scales and the same likelihood at every time. '
     'The quadrature of central or scaled moments with the corresponding mean and scale has the same weights and nodes as the quadrature of the raw moments.',
     'all models, initial moments, measurement histories, in one and several dimensions', 'tests compare two of the modes on one model', [OF, OQ, OM, MF, MQ],
     [('moment_filter_rms/cms/scms', OF), ('moment_quadrature', OQ), ('raw_to_central/raw_to_scaled/scaled_to_central', OM), ('moment_filter_nd_*', MF)], over=('inputs', 'histories'))
prop('C07', 'Multidimensional moment filters: exact predict/update recursion and likelihood',
     'For any dimension, order, model and measurement sequence, the multidimensional raw, central and scaled filters return at every time the multi-index moments (and mean, scale vectors) obtained by quadrature '
     'prediction and Bayes update with the current rule, for both ways of passing the moment orders (multi-indices or positions), and minus the sum of the log predictive densities as likelihood. '
     'A moment collection whose size does not match the multi-indices is rejected with an error.',
     'all dimensions, orders, models, data', 'tests run two-dimensional models with one N and T', [MF], [('moment_filter_nd_rms', MF), ('moment_filter_nd_cms', MF), ('moment_filter_nd_scms', MF)], over=('inputs', 'histories'))
prop('C08', 'Moment conversions are exact inverses given by the binomial and Bell formulas',
     'Raw-to-central, central-to-raw, raw-to-scaled and scaled-to-central conversions give, for moment sequences of any length, exactly the moments of the shifted and scaled variable; converting raw moments to central ones and back returns them. '
     'Scaled moments are converted to the cumulants of the unscaled variable, and the characteristic-function helpers evaluate the empirical/truncated formula at any frequency.',
     'all sequence lengths, all values, means and positive scales', 'tests use short sequences of Gaussian-like distributions where odd moments vanish', [OM],
     [('raw_to_central', OM), ('central_to_raw', OM), ('raw_to_scaled', OM), ('scaled_to_central', OM), ('sms_to_cumulants', OM), ('characteristic_fn', OM), ('characteristic_from_pdf', OM)])
prop('C09', 'Closed-form moments of normal and uniform distributions',
     'The closed-form raw and central moments of scalar normals, of multivariate normals and of uniforms on boxes equal the true moments of every order and multi-index.',
     'all orders / multi-indices, all means, variances, covariance matrices and bounds', 'tests evaluate few orders and dimensions', [OM, MM],
     [('raw_moment_of_normal/central_moment_of_normal/raw_moment_of_standard_normal', OM), ('raw_moments_mvn_kan/central_moments_mvn_kan/raw_moments_mvn_mgf/moments_nd_uniform', MM)])
prop('C10', 'SDE transition-moment factories give the moments of the stated scheme',
     'For every drift, dispersion, step, order and state, the factories return raw, central and scaled-central conditional moments, conditional mean and conditional mean with variance of the Euler, '
     'Taylor-moment-expansion-normal or Taylor-moment-expansion transition, vectorised over states and orders; scaled moments of order n are central moments divided by the n-th power of the scale (coordinatewise in several dimensions). '
     'A list of functions applied in vectorised form gives each function at the shared input, in order.',
     'all models, states, steps, orders, means and scales, in one and several dimensions', 'tests compare modes for one model at low orders', [OM, MM, UT],
     [('sde_cond_moments_euler/tme_normal/tme', OM), ('sde_cond_moments_euler_maruyama/tme_normal/tme', MM), ('vmap_list_of_funcs', UT)])
prop('C11', 'LDL factorisation and positive-definite completion',
     'For every symmetric matrix with non-zero leading minors, the LDL routine returns a unit lower triangular factor and a diagonal that reproduce the matrix. '
     'The completed factor multiplies column j of the unit lower factor by the square root of the j-th pivot, or by the completion constant (by default 1e-8 times the Frobenius norm) when that pivot is negative, so it is the Cholesky factor of every positive definite matrix.',
     'all sizes, all symmetric matrices, all thresholds', 'tests use random positive definite matrices of one size', [UT], [('ldl', UT), ('ldl_chol', UT)])
prop('C12', 'Kalman filter and RTS smoother are exact in any dimensions',
     'For every linear-Gaussian model with any state and measurement dimension and any number of measurements, the Kalman filter returns the exact filtering means and covariances and minus the log of the exact joint density of the measurements. '
     'The RTS smoother returns the exact smoothing means and covariances from the filtering results, the last one equal to the last filtering result.',
     'all dimensions, matrices, initial distributions, data', 'tests use scalar measurements and one model', [GF], [('kf', GF), ('rts', GF)], over=('inputs', 'histories'))
prop('C13', 'Discrete extended and sigma-point filters and smoothers follow their recursions',
     'For every nonlinear model, dimensions and data, the extended filter is the Kalman recursion with the model linearised at the current mean, the sigma-point filter is the moment-matching recursion with the supplied rule, '
     'and the corresponding smoothers apply the Rauch-Tung-Striebel correction with the respective cross-covariances; the negative log-likelihood sums the Gaussian predictive log-densities.',
     'all models, dimensions, rules, data, constant or state-dependent measurement covariance', 'tests compare on linear scalar models', [GF], [('ekf', GF), ('eks', GF), ('sgp_filter', GF), ('sgp_smoother', GF)], over=('inputs', 'histories'))
prop('C14', 'Continuous-discrete filters and smoothers integrate the stated moment equations',
     'For every drift, dispersion, dimensions, step and data, the continuous-discrete extended and sigma-point filters and smoothers integrate the respective mean and covariance differential equations by one classical fourth-order Runge-Kutta step per measurement interval '
     '(backwards in time from the last filtering result for the smoothers), and update with the measurement as in discrete time. The Runge-Kutta steps apply the classical fourth-order tableau to mean and covariance jointly.',
     'all models, dimensions, steps, data', 'tests compare on linear models with loose tolerances', [GF, CQ], [('cd_ekf/cd_eks/cd_sgp_filter/cd_sgp_smoother', GF), ('rk4_m_cov/rk4_m_cov_backward', CQ)], over=('inputs', 'histories'))
prop('C15', 'Sigma-point rules are exact Gaussian quadratures',
     'The cubature rule in any dimension integrates every polynomial of degree three exactly against the standard normal, and the Gauss-Hermite rule of any order p and dimension integrates every polynomial of degree up to 2p-1 in each coordinate exactly. '
     'Sigma points are the mean plus the covariance root times the unit points, and expectations are the weighted sums of the function values, for scalar, vector and matrix-valued integrands.',
     'all dimensions and orders, all means and covariance roots, all integrands', 'tests evaluate few orders in low dimension', [CQ],
     [('SigmaPoints.cubature', CQ), ('SigmaPoints.gauss_hermite', CQ), ('SigmaPoints.gen_sigma_points', CQ), ('SigmaPoints.expectation', CQ), ('gaussian_expectation', CQ)])
prop('C16', 'Resampling returns valid ancestors by inverting the cumulative weights',
     'For every normalised weight vector and random key, systematic, stratified and multinomial resampling return as many ancestor indices as particles, all within range and in non-decreasing order, where each is the first whose cumulative weight reaches the scheme\'s sorted uniform position. '
     'Continuous resampling of scalar samples returns the requested number of points, each the linear interpolation of the sorted samples at a stratified uniform level of the mid-point cumulative weights.',
     'all particle numbers, weight vectors (zeros allowed), samples and keys', 'tests check means on a few seeds', [RS], [('systematic/stratified/multinomial', RS), ('continuous_resampling', RS)], over=('inputs', 'schedules'))
prop('C17', 'Particle filters: propagation, weighting, likelihood and resampling',
     'For every model, data, key and particle number, each step of the bootstrap filter propagates all particles, weights them by the measurement density, adds minus the log of the average weight to the likelihood, and resamples with normalised weights; the step results are returned in time order. '
     'The general particle filter weights by measurement density times transition density over proposal density at the propagated particle and its ancestor.',
     'all samplers, densities, resamplers, data, keys and particle numbers', 'tests compare averages with a Kalman filter', [SM], [('bootstrap_filter', SM), ('particle_filter', SM)], over=('inputs', 'histories', 'schedules'))
prop('C18', 'Grid filter propagates and updates densities by the stated scheme',
     'For every model, grid, data and number of sub-steps, the grid filter alternates the chosen prediction (explicit Euler steps of the Kolmogorov forward equation, or Chapman-Kolmogorov integration with Euler or Taylor-moment-expansion transition densities of the sub-step) '
     'with the Bayes update, returning at every time a density normalised to one under the trapezoidal rule.',
     'all models, grids, data, sub-steps and prediction methods', 'tests run one model', [BF], [('brute_force_filter', BF)], over=('inputs', 'histories'))
prop('C19', 'Bell, Hermite, factorial and binomial special functions',
     'Partial and complete Bell polynomials and probabilist Hermite polynomials satisfy their defining recurrences for every order and argument, and the gamma, factorial and binomial helpers agree with the exact functions on their domains.',
     'all orders and arguments', 'tests evaluate low orders at few points', [UT], [('partial_bell/complete_bell/hermite_probabilist', UT), ('gamma/factorial/binom', UT)])
prop('C20', 'Density approximations from moments follow their series',
     'Gram-Charlier, Legendre and saddle-point approximations built from moments or cumulants evaluate, at every point and for every number of moments, the stated series (for Legendre on any interval, with the moments mapped to the reference interval, so that polynomial densities within the degree are reproduced). '
     'The truncated cumulant generating function and the inverse Fourier transform evaluate their defining sums.',
     'all numbers of moments, points, intervals', 'tests use one or two distributions and loose tolerances', [OP], [('gram_charlier', OP), ('legendre_poly_expansion', OP), ('saddle_point', OP), ('truncated_cumulant_generating_function', OP), ('inverse_fourier', OP)])
prop('C21', 'Gaussian sums report consistent moments, densities and samples',
     'For every mixture of Gaussians in one or several dimensions, the reported mean, (co)variance and raw, central and scaled moments are those of the mixture density that is evaluated, and samples are drawn from a component chosen by its weight.',
     'all numbers of components, parameters, orders, points and keys', 'tests use one mixture', [UT], [('GaussianSum1D', UT), ('GaussianSumND', UT)])
prop('C22', 'LTI discretisation and SDE simulation',
     'For every linear time-invariant SDE, the discretised transition matrix is the matrix exponential and the covariance is the exact process-noise integral over the step. '
     'Simulated trajectories apply the given transition mean and covariance with sub-steps of equal length and independent normal increments, and return the state at every step end.',
     'all dimensions, matrices, steps, sub-steps, keys', 'tests use one model', [UT], [('discretise_lti_sde', UT), ('simulate_sde', UT)])
prop('C23', 'Lanczos iteration and Ritz pairs',
     'For every symmetric matrix, start vector and number of iterations, the Lanczos routine produces the three-term recurrence coefficients and vectors of the start vector, and the Ritz values and vectors are the eigenpairs of the resulting tridiagonal matrix lifted to the original space.',
     'all sizes, matrices, start vectors, iteration counts', 'tests use one random matrix', [UT], [('lanczos', UT), ('lanczos_ritz', UT)])
prop('C24', 'Posterior Cramer-Rao recursion',
     'For every transition and measurement log-density, set of trajectories and measurements, the bound is the information recursion of the averaged second-derivative blocks started from the given information, one matrix per time.',
     'all models, dimensions, numbers of trajectories and times', 'tests use one linear model', [UT], [('posterior_cramer_rao', UT)], over=('inputs', 'histories'))
prop('C25', 'Taylor quadrature sums the derivative series',
     'For every smooth function, extra argument, moment sequence and order, the Taylor quadrature is the sum of the derivatives at the expansion point times the central moments over the factorials.',
     'all functions, points, moments and orders', 'tests use one function', [OQ], [('taylor_quadrature', OQ)])
prop('C26', 'Test models are the published state-space models',
     'The packaged models provide the published drift, dispersion, emission probability, measurement probability mass, time grid and initial Gaussian mixture, and their simulators draw trajectories of the stated length from that model.',
     'all states, measurements, parameters and keys', 'the tests never evaluate the models away from one run', [OS, MS], [('benes_bernoulli/well_poisson', OS), ('satellite_orbital_stability/prey_predator', MS)])
prop('C27', 'Moment filters converge to the true filter as the number of moments grows',
     'As the number of moments grows, the filtering moments and the likelihood returned by the moment filters converge to those of the exact filtering distribution for models meeting the stated regularity conditions.',
     'all admissible models and data, in the limit of the number of moments', 'a limit statement about analysis, not about any finite run', [OF, MF], [('moment_filter_*', OF)], over=('inputs', 'histories'))
prop('C28', 'Random draws have the documented distributions',
     'The samples produced by the mixture samplers, simulators and resampling schemes are distributed as documented, with independence between keys.',
     'all keys and parameters, in distribution', 'only statistical tests are possible on finite samples', [UT, RS, SM], [('samplers', UT)], over=('schedules',))

NA = {
    'C27': 'A limit theorem of numerical analysis (convergence in N under regularity conditions on the unknown model): no pre/postcondition over the code expresses it; the per-step recursions it rests on are C03-C07.',
    'C28': 'A statement about the distribution of pseudo-random bits of jax.random, which is an external dependency treated as an uninterpreted function of the key; contracts fix which draws are used and how (C16, C17, C21, C22), not their law.',
}
TECH = 'deductive verification of the real Python source against contracts (symbolic interpretation, normal-form and z3 discharge of every obligation, replay on the real code)'


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    from contracts import allc
    cs = allc.contracts()
    checks, na = [], []
    for p in P:
        mine = [c for c in cs if (c.prop == p['id'] or p['id'] in c.also) and (c.prove or c.conc)]
        if p['id'] in NA:
            na.append(dict(property=p['id'], reason=NA[p['id']]))
        elif not mine:
            na.append(dict(property=p['id'], reason='not yet under contract'))
        else:
            proved = [c for c in mine if c.prove and c.inputs is not None]
            bounded = [c for c in mine if not (c.prove and c.inputs is not None)]
            lean = sorted({l for c in mine for l in c.lean})
            note = (f'Proof for all sizes and real-valued inputs of {len(proved)} contracted functions ({", ".join(sorted({c.target.split(":")[1] for c in proved}))}); '
                    'floats are reals, library functions (jax, numpy, scipy, tme) are modelled, user callables are pure.')
            if bounded:
                note += f' Bounded only (never counted as proved): {", ".join(sorted({c.id for c in bounded}))}.'
            if lean:
                note += f' Mathematical lemmas in Lean: {", ".join(lean)}.'
            checks.append(dict(property=p['id'], quick_cmd=f'python3-vt bin/check.py {p["id"]} quick',
                               thorough_cmd=f'python3-vt bin/check.py {p["id"]} thorough', technique=TECH if proved else 'executable contracts, bounded',
                               level='proof' if proved else 'exploration', level_note=note))
    json.dump(dict(version=1, setup_cmd='bash bin/setup.sh', checks=checks, not_applicable=na,
                   notes='No hooks in /repo. Known and fixed findings: KNOWN_FINDINGS.txt'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
