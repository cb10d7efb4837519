F = 'frm/term_structures/historical_swap_index_fixings.py'
S = 'frm/term_structures/swap_curve.py'
P('P13', 'Overnight and term fixings give the right historical coupon rates',
  'A past coupon\'s rate is the daily compounding, the calendar-day-weighted average (a day without a fixing using the latest earlier one) or the simple '
  'average of the published fixings of its own observation period, whatever other periods are asked for and in whatever order the fixings are supplied. '
  'A term fixing is the latest one on or before the date, returned in the order asked, and periods the history does not cover are rejected.',
  'random weekday fixing histories with random holidays, negative rates, shuffled rows; random observation periods',
  'No stable test computes a coupon from fixings.',
  [F], [('RFRFixings.get_coupon_rates', F), ('TermFixings.index_historical_fixings', F)], observe=['get_coupon_rates', 'index_historical_fixings'])
P('P14', 'Swap curves stitch fixings and forwards together at the curve date',
  'For any mix of past, current and future periods a swap curve takes past periods from the historical fixings and future periods from the '
  'curve\'s forwards, and an overnight period that contains the curve date combines both: compounded interest compounds across the curve date, averages are weighted by '
  'time. A term period is fixed historically if it starts before the curve date. Fixings on another day count basis than the curve are rejected.',
  'random curves and histories; 1-5 periods in any order around the curve date; three calculation methods',
  'No test uses a swap curve.',
  [S], [('RFRSwapCurve.get_fixings', S), ('TermSwapCurve.get_fixings', S)], observe=['get_fixings', 'get_discount_factors'])
