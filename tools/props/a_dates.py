P('P01', 'Day counts and year fractions follow each day count basis',
  'For every supported day count basis and every ordered pair of dates, day count and year fraction equal the value the '
  'convention defines (actual days; 30/360, 30E/360 and 30E/360 ISDA day adjustments including the termination-date rule; '
  'ACT/ACT ISDA split by calendar year), whatever date type is passed and elementwise for vectors. '
  'Actual day counts and ACT year fractions are additive over adjacent periods and monotone in the end date, and the count over an '
  'empty period is zero, and a start date after the end date is rejected.',
  'every date pair 1950-2150 (biased to month ends, leap days, year ends), all 7 bases, all termination flags, scalar/'
  'vector/Series/array inputs of any supported date type',
  'The tests pin one or two date pairs per basis; month-end, leap-year and year-boundary combinations are unbounded.',
  ['frm/utils/daycount.py'], [('day_count', 'frm/utils/daycount.py'), ('year_frac', 'frm/utils/daycount.py')],
  observe=['frm.utils.day_count', 'frm.utils.year_frac'])
P('P02', 'A business-day calendar is the union of its places\' weekends and holidays',
  'For any list of currencies, countries and exchanges, in any order, capitalisation and multiplicity, the resulting calendar '
  'treats a date as a business day exactly when it is neither a weekend day nor a holiday of any of the requested places. '
  'Without a request it is the plain Monday-to-Friday calendar, and an unknown place is rejected even inside a list of valid ones. '
  'The caller\'s argument is left unchanged.',
  'all subsets of the shipped currencies/locales, any order/case/multiplicity, dates 1990-2099',
  'The test checks a handful of fixed keys and holidays; unions over arbitrary subsets are combinatorial.',
  ['frm/utils/business_day_calendar.py'], [('get_busdaycal', 'frm/utils/business_day_calendar.py'),
                                          ('get_holidays_object', 'frm/utils/business_day_calendar.py')],
  observe=['frm.utils.get_busdaycal'])
P('P03', 'Tenors mean one calendar offset and workday counts business days',
  'Every way of writing a tenor (words, abbreviations, any case, blanks, slashes, combined years-and-months, overnight/tom-next/spot '
  'codes) normalises to one canonical code, normalising again changes nothing, and the resulting date is the start date moved by that '
  'calendar period, month-end clipped; equal periods in different units agree. '
  'Strings outside the tenor grammar are rejected. '
  'Moving a date by a number of workdays lands on the business day reached by counting business days of the given calendar.',
  'all tenor spellings with counts 0-200, dates 1950-2100, random holiday calendars',
  'The test lists a few spellings; spellings x dates x calendars is unbounded.',
  ['frm/utils/tenor.py', 'frm/utils/business_day_calendar.py'],
  [('clean_tenor', 'frm/utils/tenor.py'), ('tenor_to_date_offset', 'frm/utils/tenor.py'), ('get_tenor_settlement_date', 'frm/utils/tenor.py'),
   ('workday', 'frm/utils/tenor.py')], observe=['frm.utils.tenor'])
P('P04', 'FX curve date, spot date and spot offset are resolved consistently',
  'Given a curve date, a spot date, or both, and optionally an explicit spot offset, the resolved triple satisfies: the spot date is '
  'the curve date moved by that many business days of the calendar, and the offset defaults to the market convention of the pair (one '
  'day for USD against CAD, PHP, RUB and TRY, otherwise two, in either quotation order). '
  'An explicit offset is used as given, two dates imply the number of business days between them, and contradictory '
  'inputs are rejected.',
  'all currency pairs in either order, dates 2000-2060, offsets 0-5, random holiday calendars',
  'No test covers it; the outcome depends on holidays between the two dates.',
  ['frm/utils/tenor.py'], [('resolve_fx_curve_dates', 'frm/utils/tenor.py'),
                                          ('get_fx_spot_day_offset', 'frm/utils/tenor.py')],
  observe=['frm.utils.tenor.resolve_fx_curve_dates'])
