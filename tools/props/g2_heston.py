H = 'frm/pricing_engine/heston.py'
P('P26', 'Simulated Heston paths follow their discretisation and the model',
  'For any Heston parameters and random variates, scalar and vectorised simulation give the same non-negative variances and spot paths, equal to the documented scheme (quadratic exponential, Euler with absorption or reflection) step by step, '
  'so that a path restarted from one of its points continues unchanged and scales with the spot; unknown schemes are rejected. '
  'The quadratic exponential variance has the exact conditional mean and variance of the square-root process, '
  'and the simulated spot has the forward as its mean and reproduces Heston option prices.',
  'spots 0.5-200, drifts +-10%, vols 2-60%, vv 0.03-1.5, kappa 0.1-6, rho +-0.98, horizons 0.02-8y, 1-8 steps, 1-6 paths (moments: quadrature over the variate; prices: 20,000 paths, 6 standard errors)',
  'The tests compare scalar and vectorised paths for one parameter set and one reference path.',
  [H], [('heston_simulate', H), ('heston_simulate_scalar', H)], observe=['heston_simulate, heston_simulate_scalar'])
P('P27', 'Heston calibration returns a valid, consistent model close to the smile',
  'For any FX smile the calibration keeps the at-the-money variance as initial variance, mean reversion 1.5 and no risk premium, returns valid volatility of variance, long-run variance and correlation, and leaves its inputs unmodified. '
  'The returned volatilities are those of the Heston model with the returned parameters at the strikes of the quotes, the returned error is theirs, no larger than at the starting point, and within 10% of the at-the-money volatility (root mean square), for every pricing method. '
  'Invalid inputs are rejected.',
  'spots 0.5-150, rates -1..8%, expiries 0.05-3y, at-the-money vols 6-30%, one or two risk reversals and butterflies, four delta conventions, five pricing methods',
  'The tests calibrate a handful of published smiles with one delta convention.',
  [H], [('heston_calibrate_vanilla_smile', H)], observe=['heston_calibrate_vanilla_smile'])
