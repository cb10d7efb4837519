E_ = 'frm/enums/utils.py'
Z = 'frm/term_structures/zero_curve.py'
P('P08', 'Convention codes parse, validate and default consistently',
  'Every code and documented alias of every convention (day count, compounding and payment frequency, roll, day roll, stub, timing, '
  'notional exchange, pay/receive, buy/sell, interpolation, extrapolation) parses to its member in any capitalisation, padding and blank/underscore '
  'spelling; everything else is rejected, and whatever validates also parses. '
  'A missing value gives the documented default where there is one and is rejected otherwise. '
  'Frequency offsets multiply without month-end drift.',
  'all members x random case/padding/alias spellings; random, mutated and foreign codes; None/NaN/NaT; multiples -60..60',
  'No test parses anything but one spelling of a few codes.',
  [E_, 'frm/enums/helper.py'], [('get_enum_member', 'frm/enums/helper.py'), ('from_value/is_valid', E_), ('multiply_date_offset', E_)],
  observe=['from_value', 'is_valid', 'default', 'multiply_date_offset'])
P('P09', 'Zero rate, discount factor and compounding conversions are consistent',
  'For every compounding convention the discount factor of a zero rate equals the convention\'s formula, converting it back returns the '
  'rate, and both work elementwise on vectors. '
  'Converting a rate between conventions preserves the one-year accumulation (and, for compounded and continuous rates, the discount factor at every '
  'maturity), is invertible, transitive, monotone and the identity onto itself.',
  'rates -40%..100%, maturities one day to 60 years, all 8 conventions and all ordered pairs/triples',
  'No test covers the conversions; each formula error shows only for some conventions or maturities other than one year.',
  [E_], [('CompoundingFreq.calc_*', E_), ('CompoundingFreq.convert_rate_to', E_)], observe=['frm.enums.CompoundingFreq'])
P('P10', 'A zero curve reproduces its pillars however they are described',
  'For pillars given by tenor, date, days or years, as discount factors or as zero rates of any compounding, in any row order and with or '
  'without a pillar on the curve date, the curve returns exactly those discount factors and zero rates at the pillars and a '
  'discount factor of one on the curve date, for every interpolation method. '
  'Equivalent descriptions give the same curve everywhere, the caller\'s table is not modified, and malformed tables are rejected.',
  'random curves: 4-8 pillars up to ~20y, 8 compounding conventions, 6 day count bases, 3 interpolations, random calendars',
  'The curve tests are not in the stable suite and fix two curves.',
  [Z], [('ZeroCurve._process_pillar_df', Z), ('ZeroCurve._setup_daily_df', Z)], observe=['get_discount_factors', 'get_zero_rates', 'pillar_df'])
P('P11', 'Zero curve queries agree and follow interpolation and extrapolation policy',
  'Between pillars the curve is the stated interpolation (linear or cubic spline on log discount factors, cubic spline on continuous '
  'zero rates), zero rates of every compounding are consistent with the discount factors, and querying by date, days or years, scalar or '
  'vector, in any order gives one matching result per query. '
  'Outside the covered dates the result is missing (no extrapolation) or the value at the nearest covered date (flat), without disturbing '
  'the other results. A parallel shift adds exactly that many basis points to every continuous zero rate and leaves the original curve alone.',
  'random curves and queries before, inside and after them, 5 containers, shifts +-300bp',
  'Interpolation between arbitrary pillars and mixed in/out-of-range query vectors are unbounded.',
  [Z], [('ZeroCurve.index_daily_data', Z), ('ZeroCurve.flat_shift', Z)], observe=['get_discount_factors', 'get_zero_rates', 'flat_shift'])
P('P12', 'Forward rates are implied by the curve\'s discount factors',
  'Simple, daily-compounded, continuous and annual forward rates of any period equal the rate implied by the discount factors at its ends, so '
  'that forwards over adjacent periods compound to the long forward; the averaged overnight forwards are the mean of the daily simple '
  'forwards over all days (weighted) or over business days of the curve\'s calendar (simple). '
  'The instantaneous forward of a spline curve is minus the slope of the log discount factor. '
  'Periods that end before they start or start before the curve are rejected.',
  'random curves, periods from one day to years, scalar and vector, random holiday calendars',
  'No stable test computes a forward rate.',
  [Z], [('ZeroCurve.get_forward_rates', Z), ('ZeroCurve.get_instantaneous_forward_rate', Z)], observe=['get_forward_rates', 'get_instantaneous_forward_rate'])
