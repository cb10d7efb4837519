H = 'frm/pricing_engine/heston.py'
P('P25', 'Every Heston pricing method gives the Heston price',
  'For any Heston parameters, calls and puts priced by the Heston (1993), Lewis-Lipton, Carr-Madan (quadrature and FFT), and cosine methods (scalar strike or strip, with and without put-call parity), '
  'directly or through the dispatcher, equal the Heston price within the accuracy of the method. '
  'A market price of volatility risk is the same as shifting kappa to kappa + lambda and theta to kappa theta / (kappa + lambda), a vanishing volatility of variance gives Black-Scholes, and an unknown method is rejected.',
  'spots 0.5-200, expiries 0.02-8y, rates -2..10%, initial and long-run vols 5-50%, vv 0.05-1.5, kappa 0.2-6, rho +-0.95, strikes within 2 standard deviations; Carr-Madan where its damped moment exists',
  'The tests price a handful of parameter sets and do not price the cosine method without parity or the Lewis-Lipton formula for a correlated model.',
  [H], [('heston_price_vanilla_european', H), ('heston1993_price_vanilla_european', H), ('heston_cosine_price_vanilla_european', H), ('heston_lipton_price_vanilla_european', H)],
  observe=['heston_price_vanilla_european and the functions it dispatches to'])
C = 'frm/pricing_engine/cosine_method_generic.py'
P('P28', 'Heston characteristic functions and the generic cosine method',
  'Both Heston characteristic functions equal the analytic characteristic function of the log price (1 at zero, the forward at -i, bounded by 1, conjugate symmetric, scalar or vector argument). '
  'The cosine truncation range for Heston is the mean plus or minus L standard deviations of the log return, '
  'and the generic cosine method recovers the density, distribution and put prices from a characteristic function.',
  'the Heston domain of P25; arguments -50..50; L 1-20; normal laws with any mean and standard deviation',
  'The tests evaluate the characteristic functions only through a few option prices.',
  [C, H], [('cos_method', C), ('get_cos_truncation_range', C), ('chf_heston_albrecher2007', H), ('chf_heston_fang2008', H)],
  observe=['characteristic functions, get_cos_truncation_range, cos_method'])
S = 'frm/pricing_engine/sabr.py'
P('P29', 'SABR volatilities, alpha and smile fits agree with the Hagan formula',
  'For any SABR parameters, shift and scalar, strike-vector or expiry-vector arguments the volatility is that of Hagan (2002, 2.17), is continuous at the money, does not modify its inputs and is homogeneous in forward, strike and shift. '
  'The alpha solved from an at-the-money volatility is positive and reproduces it. '
  'A fitted smile keeps a given beta, has valid parameters, reprices the at-the-money quote, is no worse than a flat smile, recovers quotes that come from a SABR model, and quotes without an at-the-money strike are rejected.',
  'forwards 0.3-9% and 0.5-200 (also negative with a shift), shifts 0-3%, expiries 0.05-15y, beta 0-1, rho +-0.9, vol of vol 0.02-1.2, strikes within 2.5 standard deviations, shuffled quotes, noise to 1%',
  'The tests fit a few published smiles with one beta and shift.',
  [S], [('calc_sln_vol_for_strike_from_sabr_params', S), ('solve_alpha_from_sln_vol', S), ('fit_sabr_params_to_sln_smile', S)],
  observe=['the three SABR functions'])
V = 'frm/pricing_engine/volatility_generic.py'
P('P30', 'Forward volatilities and flat-forward interpolation conserve total variance',
  'The forward volatility between two expiries (scalars, vectors, or a mix) carries exactly the total variance between them, is NaN where the two coincide, and inconsistent inputs (decreasing expiries or total variance) are rejected. '
  'Flat-forward interpolation returns the given volatilities at the given expiries and lies on the straight line of total variance in between, for scalars and vectors.',
  'expiries 0-30y, volatilities 1-200%, 1-6 expiries in any scalar/vector mix',
  'The tests interpolate two or three points.',
  [V], [('forward_volatility', V), ('flat_forward_interp', V)], observe=['forward_volatility, flat_forward_interp'])
M = 'frm/pricing_engine/monte_carlo_generic.py'
P('P31', 'Random variates are standard normal, antithetic and correlated as requested',
  'Generated variates have the requested shape for any step, variable and simulation count, are reproducible from the seed, and antithetic simulations come in adjacent pairs of exact negatives (an odd count included). '
  'Their mean, variance, tails and independence are those of standard normals. '
  'Correlating variates applies one linear map whose covariance is the given correlation (or covariance) matrix, for every observation of a two- or three-dimensional array.',
  'steps 1-12, variables 1-4, simulations 1-60 (moments: up to 10,001 simulations, 6 sigma), random correlation and covariance matrices of dimension 2-4',
  'The tests do not check the correlation of the variates or odd antithetic counts.',
  [M], [('generate_rand_nbs', M), ('normal_corr', M)], observe=['generate_rand_nbs, normal_corr'])
G = 'frm/pricing_engine/geometric_brownian_motion.py'
P('P32', 'Geometric Brownian motion paths solve their equation for the given variates',
  'For any number of underlyings, time steps, drifts and volatilities, each simulated path starts at the initial price and follows, step by step, the exact lognormal solution for the supplied random variates, in the shape (steps + 1, underlyings, simulations). '
  'The simulated mean grows at the drift and the log variance accumulates volatility squared times time.',
  '1-3 underlyings, 1-6 steps of 0.002-2 years, 1-30 paths (moments: 20,000 paths, 6 sigma), vols 0-100%, drifts -20..30%',
  'The tests simulate a single underlying.',
  [G, M], [('simulate_gbm_path', G), ('normal_corr', M)], observe=['simulate_gbm_path'])
