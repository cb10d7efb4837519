B = 'frm/pricing_engine/black76_bachelier.py'
P('P23', 'Black76 and Bachelier prices and greeks are those of their model',
  'For any option on a forward, scalar or vector parameters, with or without a lognormal shift, the Black76 / Bachelier price equals the annuity factor times the expected payoff '
  '(the exercise value at expiry), satisfies put-call parity, the bounds, monotonicity and convexity, and splits into annuity times exercise value plus a non-negative time value. '
  'Delta, vega (per 1% lognormal, per basis point normal) and theta (per calendar day) are the derivatives of the price, and the numerical greeks estimate the same quantities.',
  'rates (positive and negative) and prices, expiries 0-30y, shifts 0-3%, strikes within 3 standard deviations, annuities 0.01-20, 1-4 options with every scalar/vector mix',
  'The tests price one option per model and never request greeks or the intrinsic split.',
  [B], [('black76_price', B), ('bachelier_price', B)], observe=['black76_price', 'bachelier_price'])
P('P24', 'Implied volatilities and volatility conversions preserve the price',
  'The implied lognormal or normal volatility of an option, or of a strip of options priced together, reprices it (to 0.005%) from any starting guess, and a price no volatility attains is rejected. '
  'Converting a quote from lognormal to normal, from normal to lognormal or from one lognormal shift to another gives a volatility with the same price, also there and back, '
  'with the closed forms exact at the money and the analytical approximation close to the solved value.',
  'forwards 0.4-12%, expiries 0.05-20y, vols 8-80%, strikes within two standard deviations (time value at least 0.2% of the price), shifts 0-5%, strips of 1-5',
  'The tests convert a handful of at-the-money quotes.',
  [B], [('black76_solve_implied_vol', B), ('bachelier_solve_implied_vol', B), ('black76_sln_to_normal_vol', B), ('shift_black76_vol', B)],
  observe=['implied volatility and conversion functions'])
