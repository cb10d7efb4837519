V = 'frm/term_structures/fx_volatility_surface.py'
F = 'frm/term_structures/fx_helpers.py'
P('P18', 'FX volatility surface reproduces its quotes and prices consistently with them',
  'For any forward curve, zero curves and volatility quotes (any row order, by tenor or expiry date, calls/puts or strategies, any delta convention) the surface tables hold the expiries, forwards, zero rates, strikes with the quoted delta, '
  'and daily volatilities with linear total variance between pillars, and leave the inputs unmodified. '
  'The smile of any day passes through its quotes, is the interpolating spline in strike between them (or a Heston smile within the accepted error), is the same for calls and puts and whatever was asked before, and refuses expiries after the last pillar. '
  'Prices and greeks are Garman-Kohlhagen prices at the volatility, forward and zero rates that are returned with them.',
  'six currency pairs, synthetic calendars, curve dates 2005-2045, 2-5 pillars 3d-2y, 3-9 quotes per smile with 4 delta conventions, 3-point to 9-point splines, 1-6 queries per surface on any day, spot or curve date given',
  'The tests build one surface for one currency pair and date and compare two interpolation methods at the quotes.',
  [V, F], [('FXVolatilitySurface', V), ('interp_vol_surface', V), ('price_vanilla_european', V), ('fx_term_structure_helper', F)],
  over=('inputs', 'histories'), observe=['vol_smile_pillar_df, vol_smile_daily_df, strike_pillar_df, interp_vol_surface, price_vanilla_european'])
