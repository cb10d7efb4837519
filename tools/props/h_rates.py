C = 'frm/pricing_engine/clewlow_strickland_1_factor.py'
P('P33', 'Clewlow-Strickland commodity paths have the model\'s distribution',
  'Simulated one-factor Clewlow-Strickland spot paths have one row per day up to T, start at today\'s price, and without volatility are exactly the linearly interpolated forward curve. '
  'For any number of simulations (more than one batch included) every path is simulated, no path repeats another, and repeating a call repeats the paths. '
  'The mean of the simulated spot at each day is the forward curve, its log variance is sigma^2 (1 - exp(-2 alpha t)) / (2 alpha), and the log spots of two days are correlated as mean reversion implies.',
  'horizons 1-30 days, forward curves on even or uneven grids within x0.6-1.6 of any level, 1-12 segments per day, alpha 0.001-0.9, sigma 0.001-0.2, moments with thousands of paths at 6 sigma plus the Euler error',
  'The only test never calls the simulator.',
  [C], [('clewlow_strickland_1_factor_simulate', C)], observe=['the array returned by clewlow_strickland_1_factor_simulate'])
H = 'frm/pricing_engine/hw1f.py'
P('P34', 'Hull-White analytic prices are those of the model fitted to the curve',
  'For any zero curve, mean reversion (including none) and volatility, the drift is the one that fits the curve, today\'s discount factors computed from it (either formula) reprice the curve, and later bond prices given the short rate follow the affine formula. '
  'Zero-coupon bond options, caplets/floorlets and payer/receiver swaptions, for scalars, vectors or any mix, equal the expected discounted payoff under the model\'s Gaussian short rate and satisfy put-call parity. '
  'The reported fit error of the drift is the root-mean-square zero-rate error at the pillars and the grid search keeps the best candidate.',
  'curves of 2-7 pillars with each interpolation method, alpha 0-0.5, sigma 0-3%, expiries to 85% of the curve, strikes within 2 standard deviations, 1-6 irregular coupons, positive fixed rates, notional paid at or apart from the last coupon',
  'The tests price a few instruments on one flat or smooth curve and are not part of the reliable suite.',
  [H], [('HullWhite1Factor.get_thetas', H), ('HullWhite1Factor.calc_discount_factor_by_solving_ode_1', H), ('HullWhite1Factor.price_zero_coupon_bond_option', H),
        ('HullWhite1Factor.price_optionlet', H), ('HullWhite1Factor.price_swaption', H)], observe=['HullWhite1Factor methods'])
P('P35', 'Hull-White simulations follow the scheme, integrate it and fit the curve',
  'Simulated short rates (Euler, Runge-Kutta or exact scheme) start at the curve\'s initial short rate on an even grid, the simulated discount factors and zero rates are those of the integral of each rate path, and the averages are the mean discount factors over the paths with the zero rates that follow from them. '
  'Simulations are reproducible from the seed, antithetic when requested, equal the deterministic solution without volatility, have the mean and covariance of the scheme, and an unknown method is rejected.',
  'the curves and parameters of P34, horizons to 98% of the curve, 1-25 steps, 2-12 paths (moments: thousands of paths, 6 sigma), antithetic or not',
  'The simulation test plots one configuration and is not part of the reliable suite.',
  [H], [('HullWhite1Factor.simulate', H)], observe=['the results of HullWhite1Factor.simulate'])
I = 'frm/term_structures/interest_rate_option_helpers.py'
P('P36', 'Interest-rate option quote columns keep their strike however they are spelled',
  'Strike columns in percent or basis points, signed or not, in any case and spacing, absolute or relative to the at-the-money forward, are recognised and renamed to basis points with exactly the strike they state; other columns are left alone and standardising twice changes nothing. '
  'Two spellings of one strike get one name and value, and relative quotes need exactly one at-the-money column. '
  'The settlement date is the given one, or else the settlement delay counted in business days from the curve date, and missing or contradictory inputs are rejected.',
  'strikes in tenths of a basis point within +-5% (relative) or 0-10% (absolute), units bps/bp/%, random case, sign and spacing, up to 7 quotes among 5 other columns; random calendars and delays',
  'The tests use a few spellings of whole basis points.',
  [I], [('standardise_relative_quote_col_names', I), ('standardise_absolute_quote_col_names', I)], observe=['the column helpers and settlement date helper'])
O = 'frm/term_structures/optionlet.py'
P('P37', 'Cap and floor volatilities bootstrap to optionlets that reprice the quotes',
  'For any consistent set of at-the-money and relative-strike cap/floor quotes (any row order), optionlet periods, forwards, annuities, quote strikes, out-of-the-money types and quote prices at lognormal and equivalent normal volatility are those the definitions give, and the caller\'s quotes are unchanged. '
  'The bootstrapped optionlets reprice the at-the-money quotes, their SABR parameters are valid, keep a given beta, hit the at-the-money volatility, are interpolated linearly between quotes, and reprice the other quotes within the calibration tolerance. '
  'Pricing any schedule inside the surface with flat lognormal or normal volatilities or with the interpolated smile is the sum of the Black/Bachelier optionlets, solving the volatility inverts it, and invalid requests are rejected.',
  '1-4 quotes of 6 months to 5 years, quarterly or semiannual, any curve and calendar, shifts 0-3%, 2-5 relative strikes within 2 standard deviations, flat or SABR smiles (beta 0, 0.5, 1; |rho|, vol of vol <= 0.5), given or free beta; schedules of 1-8 periods of any frequency',
  'The tests bootstrap one market data set and compare prices with stored values.',
  [O, I], [('Optionlet', O)], observe=['Optionlet.term_structure', 'Optionlet quote_strikes/quote_pxs/quote_vol_n', 'Optionlet pricing methods'])
