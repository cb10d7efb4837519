F = 'frm/utils/schedule.py'
P('P05', 'Period schedules tile [start, end] regularly, with stubs where requested',
  'Every generated schedule consists of contiguous periods of positive length running exactly from the start date to the end date '
  '(as given, or rolled when rolling of user dates is requested), whose interior dates step by the frequency from one end, so that '
  'any broken period sits where the stub type (short/long, first/last, default short first) says. '
  'A specified first period end or last period start is the end of the first / start of the last period, alone or together, and '
  'asking for dates the schedule has anyway changes nothing. Contradictory inputs are rejected.',
  'all start/end dates 2000-2050, all frequencies, roll conventions, day rolls, random weekmask+holiday calendars, all stub '
  'types and user-specified period dates on and off the grid',
  'About thirty spreadsheet rows fix single schedules; month-end clipping, holidays at the boundaries and combinations of stub '
  'inputs are unbounded.',
  [F], [('make_schedule', F), ('generate_date_schedule', F), ('PeriodFreq.multiply_date_offset', 'frm/enums/utils.py')],
  observe=['frm.utils.make_schedule', 'frm.utils.generate_date_schedule', 'BaseSchedule.df'])
P('P06', 'Schedule and payment dates obey roll convention, day roll and calendar',
  'Interior schedule dates are the unadjusted dates moved to business days of the given calendar by the roll convention (modified '
  'conventions stay in the month, unadjusted leaves dates alone), start and end dates are only moved on request, and a day roll '
  '(1-31, end of month) fixes the day of month before adjustment. '
  'A payment date is the rolled period end (in arrears) or start (in advance) moved by the payment delay in business days of the calendar.',
  'all schedules of P05 with random calendars whose holidays are aimed at the schedule dates, payment delays 0-12',
  'Tests use the default Monday-Friday calendar and the default roll; holidays hitting boundary dates are not sampled.',
  [F], [('generate_date_schedule', F), ('BaseSchedule.add_payment_dates', F)], observe=['make_schedule', 'BaseSchedule.add_payment_dates'])
P('P07', 'Notional, coupon and accrual columns and exposure grids are consistent',
  'For a scalar or per-period notional and any exchange type, the schedule has one accrual row per period with that notional, '
  'repayments equal to the fall in notional, initial (negative) and final exchanges exactly when requested, so that with both exchanges notional '
  'payments net to zero, and notional/coupon payment dates follow their own delay and timing. '
  'Day count and year fraction columns equal the day count functions period by period whichever is added first or repeatedly, and '
  'a notional vector of the wrong length is rejected. '
  'An exposure date grid is the sorted unique sampling dates (or given pillars) plus the requested value dates.',
  'schedules of P05 with all exchange types, delays 0-5, both timings, all day count bases; sampling frequencies 1d-12m',
  'No test exercises notional vectors, exchanges or the exposure grid.',
  [F], [('NotionalSchedule.add_notional_schedule', F), ('CouponSchedule', F), ('add_period_daycount/yearfrac', F),
        ('create_date_grid_for_fx_exposures', F)], observe=['NotionalSchedule.df', 'CouponSchedule.df'])
