B = 'frm/term_structures/bootstrap_helpers.py'
X = 'frm/term_structures/fx_helpers.py'
P('P15', 'Bootstrapped cash and futures discount factors reprice their quotes',
  'For any table of deposits (given by tenor or by dates, in any row order, with or without settlement delay) and any strip of futures after it, the '
  'discount factors at the ends of each period reproduce the quoted rate, or the price less the convexity adjustment, with dates on business days and the start of '
  'a period interpolated log-linearly on the curve so far. '
  'ASX bank bill contracts named by ticker (1, 2 or 4 digit year, any row order) or month and year get the settlement, expiry, maturity dates and rate of their own '
  'contract, and unknown contracts are rejected.',
  'random deposit tables on random holiday calendars, strips of 1-8 futures with and without convexity, all tickers 2000-2049',
  'No test calls the bootstrap helpers.',
  [B], [('bootstrap_cash_rates', B), ('bootstrap_futures', B), ('futures_helper_asx_90day', B)], observe=['bootstrap_helpers.*'])
P('P16', 'FX forward curves date, interpolate and extrapolate their quotes correctly',
  'Forward quotes given by tenor, fixing date, delivery date or any mixture get the fixing date on a business day and the delivery date the spot lag later (each implied from the '
  'other), sorted by delivery with their own rate, and the caller\'s table is not modified. '
  'The forward for any date is linear in time between quotes and, outside them, that of the nearest quote or missing, one result per date in the order asked. '
  'Currency pairs parse in any spelling into base and quote currency, with a warning for unconventional quotation.',
  'random quote tables, calendars, spot lags 0-3; query dates before, inside and after the curve',
  'The tests use one curve with tenors only.',
  [X], [('fx_term_structure_helper', X), ('interp_fx_forward_curve_df', X), ('validate_ccy_pair', X)], observe=['frm.term_structures.fx_helpers'])
P('P17', 'FX volatility quotes keep their meaning however they are spelled',
  'For every accepted spelling of call, put, risk reversal, butterfly and at-the-money columns, in any column order, the smile has exactly the quoted call and put '
  'volatilities (at-the-money + butterfly +/- half the risk reversal for strategy quotes, direct quotes taking precedence) with the right signed delta, ordered from low to high strike. '
  'Tables without an at-the-money quote or with a risk reversal without its butterfly are rejected, and delta conventions or pair orders that are not the market\'s are flagged, no others.',
  'random spellings x 1-5 deltas (1..49) x 1-4 tenors, strategy/direct/both',
  'One regular expression and one quote table are tested.',
  [X], [('clean_vol_quotes_column_names', X), ('solve_call_put_quotes_from_strategy_quotes', X), ('get_delta_smile_quote_details', X)],
  observe=['frm.term_structures.fx_helpers'])
G = 'frm/pricing_engine/garman_kohlhagen.py'
P('P19', 'Garman-Kohlhagen prices are discounted expected payoffs',
  'The price of any European FX call or put, scalar or vector, with or without a market forward, equals the discounted expected payoff of the '
  'lognormal spot (the payoff itself at expiry), splits into discounted forward intrinsic plus a non-negative time value, and scales with the currency unit. '
  'It satisfies put-call parity, foreign-domestic symmetry, the arbitrage bounds, monotonicity and convexity in strike and monotonicity in volatility, and impossible inputs are rejected.',
  'spots 0.01-2000, expiries 0-20y, rates -3%..15%, basis +-2%, vols 2-80%, strikes within 3 standard deviations',
  'Tests price eight options of one pair to 0.06% of notional.',
  [G], [('garman_kohlhagen_price', G)], observe=['price', 'intrinsic', 'time'])
P('P20', 'Garman-Kohlhagen greeks are derivatives of the price in market units',
  'Analytical spot and forward delta, vega and rho (per 1%), gamma (per 1% spot move) and theta (per calendar day) of any call or put equal the corresponding '
  'derivatives of the price, a market forward being represented by its implied domestic rate. The numerical greeks are finite difference estimates of the same quantities.',
  'same market domain as P19, expiries from weeks to 20 years, strikes within 2.5 standard deviations',
  'Only delta is compared in the tests; numerical greeks are never requested.',
  [G], [('garman_kohlhagen_price', G)], observe=['analytical_greeks', 'numerical_greeks'])
P('P21', 'The strike solved from an FX delta quote has that delta',
  'For every delta convention (regular or premium adjusted, spot or forward) and any market, the strike returned for an attainable call or put delta has exactly '
  'that delta, on the higher-strike branch for premium adjusted calls, and at-the-money quotes get the delta neutral strike of the stated convention. '
  'Strikes of one volatility are ordered by delta, each depends on its own quote only, and impossible quotes are rejected.',
  'spots 0.005-20000, expiries 0.01-12y, deltas 1-50 both signs, vols 3-40%, market forwards off parity',
  'The tests solve a dozen quotes; most conventions and market forwards off parity are not tested.',
  [G], [('garman_kohlhagen_solve_strike_from_delta', G)], observe=['garman_kohlhagen_solve_strike_from_delta'])
P('P22', 'FX implied volatility inverts the price',
  'For any option with meaningful vega the implied volatility of its price recovers the volatility to within two hundredths of a vol point from any reasonable guess. '
  'A price outside the arbitrage bounds has no implied volatility.',
  'strikes within 2 standard deviations, vols 3-80%, guesses 5-60%, prices below and above the bounds',
  'Eight round trips starting from almost the right guess are tested.',
  [G], [('garman_kohlhagen_solve_implied_vol', G)], observe=['garman_kohlhagen_solve_implied_vol'])
