L = 'frm/instruments/leg.py'
P('P38', 'Swap legs and swaps are valued from their own remaining cash flows',
  'For any schedule, pay or receive direction, notionals, notional exchanges, rates (one or per period), discount curve and value date, the value of a fixed or zero-coupon leg is the sum of its payments after the value date (on it too, if so configured) times their discount factors, accrued interest is the interest of the current period up to the value date plus coupons accrued but not yet paid, clean value is their difference, and a pay leg is minus the receive leg. '
  'The current / non-current split and the yearly buckets partition the remaining payments, and the par rate (or the rate for a target value) is the rate at which the leg has that value and is missing only if there is none between -10% and 300%; no sequence of these calls changes the contractual rates or later results. '
  'A swap is the sum of its two legs, which must have opposite directions, and rates of the wrong length or a missing curve are rejected.',
  'schedules of P05-P07 with every exchange type, delay, timing and day count basis, 1-4 rates, value dates before, inside, after and exactly on period and payment dates, sequences of 2-7 calls with the value date moving, both settings of the value-date and accrued-interest switches',
  'The tests only construct one leg of each type (and cannot be imported at the pinned commit); value, accrual and solvers are never called.',
  [L, 'frm/instruments/swap.py'], [('Leg.calc_dirty_pv', L), ('Leg.calc_accrued_interest', L), ('Leg._solver_helper', L), ('Leg.get_current_non_current_split', L),
        ('Leg._bucket_payments_helper', L), ('Swap', 'frm/instruments/swap.py')], over=('inputs', 'histories'), observe=['the results of FixedLeg, ZerocouponLeg and Swap methods', 'the leg schedule'])
