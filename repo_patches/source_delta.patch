From f87125b6376a0168860a460b0b30d14d55f7c940 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 001/100] fix: find mixed-case locale calendars

---
 frm/utils/business_day_calendar.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/frm/utils/business_day_calendar.py b/frm/utils/business_day_calendar.py
index 8f550fb..3f64635 100644
--- a/frm/utils/business_day_calendar.py
+++ b/frm/utils/business_day_calendar.py
@@ -24,8 +24,13 @@ def get_holidays_object(key):
         return CCY_HOLIDAY[key]
     elif key in LOCALE_HOLIDAY.keys():
         return LOCALE_HOLIDAY[key]
-    else:
-        raise ValueError(f"Holidays not setup for {key}")
+
+    # get_busdaycal upper-cases the requested keys but some locale keys are mixed case
+    for locale, holidays_object in LOCALE_HOLIDAY.items():
+        if locale.upper() == key.upper():
+            return holidays_object
+
+    raise ValueError(f"Holidays not setup for {key}")
 
 
 def convert_weekend_to_weekmask(weekend_set):
-- 
2.43.0


From 0d5692b795122a01e6f70efa1cc2515c9a5e6e0c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 002/100] fix: pass the day offset under its parameter name

---
 frm/utils/tenor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 368d590..72679fd 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -127,7 +127,7 @@ def resolve_fx_curve_dates(
 
     if curve_date is not None and spot_date is not None and spot_offset is not None:
         # All three dates are specified, check for consistency
-        check_day_offset_consistency(date=curve_date, offset_date=spot_date, offset=spot_offset, busdaycal=cal)
+        check_day_offset_consistency(date=curve_date, offset_date=spot_date, day_offset=spot_offset, busdaycal=cal)
     elif spot_offset is None and curve_date is not None and spot_date is not None:
         # Spot offset is not specified, calculate it based on curve date and spot date
         spot_offset = calc_implied_business_day_offset(curve_date, spot_date, cal)
-- 
2.43.0


From 239177baf844f02bd56d29c5c5260e07f929bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 003/100] fix: count business days in
 calc_implied_business_day_offset

---
 frm/utils/tenor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 72679fd..cf4e0fe 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -107,14 +107,13 @@ def calc_implied_business_day_offset(
         date: pd.Timestamp,
         offset_date: pd.Timestamp,
         cal: np.busdaycalendar) -> int:
-    assert date >= offset_date, "date must be greater than or equal to offset_date"
+    assert offset_date >= date, "offset_date must be greater than or equal to date"
 
     offset = 0
+    date_np = date.to_numpy().astype('datetime64[D]')
     while date < offset_date:
         offset += 1
-        date += pd.DateOffset(days=1)
-        date_np = date.to_numpy().astype('datetime64[D]')
-        date = np.busday_offset(date_np, offsets=0, roll='following', busdaycal=cal)
+        date = pd.Timestamp(np.busday_offset(date_np, offsets=offset, roll='following', busdaycal=cal))
     return offset
 
 
-- 
2.43.0


From 2d5f06b63ce841970e8af6a8c5b5513ede13f852 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 004/100] fix: keep a user specified spot offset

---
 frm/utils/tenor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index cf4e0fe..32c9080 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -130,7 +130,7 @@ def resolve_fx_curve_dates(
     elif spot_offset is None and curve_date is not None and spot_date is not None:
         # Spot offset is not specified, calculate it based on curve date and spot date
         spot_offset = calc_implied_business_day_offset(curve_date, spot_date, cal)
-    else:
+    elif spot_offset is None:
         # Only one of {curve_date, spot_date} are specified, get spot_offset per market convention from ccy_pair
         spot_offset = get_fx_spot_day_offset(ccy_pair)
 
-- 
2.43.0


From cfc7e8fc26bb3d0b6495eca26b5e534579815190 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 005/100] fix: support the unadjusted roll convention in
 schedules

---
 frm/utils/schedule.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 08f5355..6b02e32 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -88,7 +88,12 @@ class BaseSchedule:
 
         # Apply np.busday_offset only to non-NaT dates
         adjusted_dates = np.empty_like(dates, dtype='datetime64[D]')
-        adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=self.roll_conv.value, busdaycal=self.cal)
+        if self.roll_conv == RollConv.UNADJUSTED and payment_delay == 0:
+            adjusted_dates[valid_dates_mask] = valid_dates
+        else:
+            # 'unadjusted' is not a numpy roll, a non-zero delay in business days needs to start from a business day
+            roll = 'following' if self.roll_conv == RollConv.UNADJUSTED else self.roll_conv.value
+            adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=roll, busdaycal=self.cal)
         adjusted_dates[~valid_dates_mask] = 'NaT'
 
         # Update DataFrame
@@ -460,6 +465,8 @@ def generate_date_schedule(
     """
     
     def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
+        if roll_conv == RollConv.UNADJUSTED.value:
+            return pd_timestamp
         np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
         rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
         return pd.Timestamp(rolled_date_np)
-- 
2.43.0


From e1b4d46aa32d6ae03924499bda70085b7d0b919e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 006/100] fix: support the end of month day roll in schedules

---
 frm/utils/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 6b02e32..442f8f9 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -475,6 +475,8 @@ def generate_date_schedule(
                                 specific_day_roll: DayRoll) -> pd.Timestamp:
         if specific_day_roll == DayRoll.UNADJUSTED:
             return pd_timestamp
+        elif specific_day_roll == DayRoll.EOM:
+            return pd_timestamp + pd.offsets.MonthEnd(0)
         else:
             try:
                 return pd_timestamp.replace(day=specific_day_roll.value)
-- 
2.43.0


From a6278adff4bb10b8e6ab961852b7c32a0ba3558a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 007/100] fix: no spurious periods when a regular date rolls
 across the schedule boundary

---
 frm/utils/schedule.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 442f8f9..2748763 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -507,14 +507,19 @@ def generate_date_schedule(
 
     if direction == 'forward':
         current_date = apply_specific_day_roll(start_date + freq.date_offset, day_roll)
-        current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
-        
-        while current_date < end_date: 
-            start_dates.append(current_date)
-            end_dates.append(current_date)
+        rolled_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
+        previous_date = start_date_in_schedule
+
+        # Both the unrolled & rolled date must be inside the schedule, otherwise rolling the regular date that
+        # coincides with the (unrolled) end_date creates a spurious period.
+        while current_date < end_date and rolled_date < end_date_in_schedule:
+            if rolled_date > previous_date:
+                start_dates.append(rolled_date)
+                end_dates.append(rolled_date)
+                previous_date = rolled_date
             current_date = start_date + freq.multiply_date_offset(i+1)
             current_date = apply_specific_day_roll(current_date, day_roll)
-            current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
+            rolled_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
             i += 1
 
         start_dates = [start_date_in_schedule] + start_dates
@@ -522,14 +527,17 @@ def generate_date_schedule(
         
     elif direction == 'backward':
         current_date = apply_specific_day_roll(end_date - freq.date_offset, day_roll)
-        current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
-        
-        while current_date > start_date:   
-            start_dates.append(current_date)
-            end_dates.append(current_date)
+        rolled_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
+        previous_date = end_date_in_schedule
+
+        while current_date > start_date and rolled_date > start_date_in_schedule:
+            if rolled_date < previous_date:
+                start_dates.append(rolled_date)
+                end_dates.append(rolled_date)
+                previous_date = rolled_date
             current_date = end_date - freq.multiply_date_offset(i+1)
             current_date = apply_specific_day_roll(current_date, day_roll)
-            current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
+            rolled_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
             i +=1
 
         start_dates.append(start_date_in_schedule)
-- 
2.43.0


From a57a8202a987200461de0deafafb1ed836ce10c8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 008/100] fix: no stub merging in a schedule with a single
 period

---
 frm/utils/schedule.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 2748763..dad5f11 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -297,12 +297,12 @@ def make_schedule(
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 1:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             elif first_stub == Stub.NONE and last_stub != Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 1:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub in [Stub.SHORT, Stub.LONG] and last_stub in [Stub.SHORT, Stub.LONG]:
@@ -385,7 +385,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = [start_date] + d1
                 d2 = [first_period_end] + d2
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 2:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
@@ -393,7 +393,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = d1 + [last_period_start]
                 d2 = d2 + [end_date]
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 2:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             else:
@@ -403,13 +403,13 @@ def make_schedule(
                 if first_stub == Stub.NONE:
                     # Forward date generation
                     d1, d2 = d1_forward, d2_forward
-                    if last_stub == Stub.LONG:
+                    if last_stub == Stub.LONG and len(d1) > 1:
                         d1 = d1[:-1]
                         d2 = d2[:-2] + [d2[-1]]
                 elif last_stub == Stub.NONE:
                     # Backward date generation
                     d1, d2 = d1_backward, d2_backward
-                    if first_stub == Stub.LONG:
+                    if first_stub == Stub.LONG and len(d1) > 1:
                         d1 = [d1[0]] + d1[2:]
                         d2 = d2[1:]
                 else:
-- 
2.43.0


From 1b16e26f3c05bd87821e9fa5e85feaa22fa10159 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 009/100] fix: accept explicit first and last stub types

---
 frm/utils/schedule.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index dad5f11..ee5d79d 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -292,8 +292,6 @@ def make_schedule(
                 first_stub  = Stub.NONE
             elif last_stub == Stub.DEFAULT:
                 last_stub = Stub.NONE
-            else:
-                raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-- 
2.43.0


From 197cab177c575299b3bc0cdfd08dad0f94e870d4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 010/100] fix: honour first_period_end and last_period_start
 when both are specified

---
 frm/utils/schedule.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index ee5d79d..3342b2f 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -334,7 +334,7 @@ def make_schedule(
                 elif first_period_end == d2_backward[0]:
                     direction.append('backward')
                     first_stub = Stub.SHORT
-                elif first_period_end == d2_backward[1]:
+                elif len(d2_backward) > 1 and first_period_end == d2_backward[1]:
                     direction.append('backward')
                     first_stub = Stub.LONG
                 else:
@@ -349,13 +349,24 @@ def make_schedule(
                 elif last_period_start == d1_forward[-1]:
                     direction.append('forward')
                     last_stub = Stub.SHORT
-                elif last_period_start == d1_forward[-2]:
+                elif len(d1_forward) > 1 and last_period_start == d1_forward[-2]:
                     direction.append('forward')
                     last_stub = Stub.LONG
                 else:
                     # Need to construct schedule using last_period_start
                     last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
 
+            # Step 2b : If both are specified, both must be in the schedule. Unless one generated schedule has both dates
+            #           the schedule is generated between first_period_end and last_period_start.
+            if first_period_end is not None and last_period_start is not None and (len(direction) != 2 or len(set(direction)) != 1):
+                if first_period_end == d2_backward[0] and last_period_start == d1_backward[-1]:
+                    first_stub, last_stub, direction = Stub.SHORT, Stub.NONE, ['backward']
+                elif first_period_end == d2_forward[0] and last_period_start == d1_forward[-1]:
+                    first_stub, last_stub, direction = Stub.NONE, Stub.SHORT, ['forward']
+                else:
+                    first_stub = Stub.DEFINED_PER_FIRST_PERIOD_END_DATE
+                    last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
+
             # Step 2c : Set default stub values to:
             #              (i) NONE if other stub is SHORT/LONG
             #              (ii) SHORT if other stub is NONE
-- 
2.43.0


From 0661c6251ef110db053f0b5a56498773cbf3c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 011/100] fix: roll every user specified date when
 roll_user_specified_dates is set

---
 frm/utils/schedule.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 3342b2f..eb53dbc 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -424,10 +424,23 @@ def make_schedule(
                 else:
                     raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
+    if roll_user_specified_dates:
+        # Rolls start_date, end_date, first_period_end & last_period_start (the generated dates are already rolled)
+        d1 = [busday_offset_timestamp(d, 0, roll_conv.value, cal) for d in d1]
+        d2 = [busday_offset_timestamp(d, 0, roll_conv.value, cal) for d in d2]
+
     schedule = pd.DataFrame({'period_start': d1, 'period_end': d2})
     return schedule
 
 
+def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
+    if roll_conv == RollConv.UNADJUSTED.value:
+        return pd_timestamp
+    np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
+    rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
+    return pd.Timestamp(rolled_date_np)
+
+
 def generate_date_schedule(
         start_date: pd.Timestamp, 
         end_date: pd.Timestamp, 
@@ -473,13 +486,6 @@ def generate_date_schedule(
           E.g. Wrap with fields with Optional[] and set defaults in function from enum.set_default()
     """
     
-    def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
-        if roll_conv == RollConv.UNADJUSTED.value:
-            return pd_timestamp
-        np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
-        rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
-        return pd.Timestamp(rolled_date_np)
-    
     def apply_specific_day_roll(pd_timestamp: pd.Timestamp,
                                 specific_day_roll: DayRoll) -> pd.Timestamp:
         if specific_day_roll == DayRoll.UNADJUSTED:
-- 
2.43.0


From 28ba4ca59b15e12c66afee0caf998f40b82dea00 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 012/100] fix: accept one notional per period

---
 frm/utils/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index eb53dbc..0311a64 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -150,9 +150,9 @@ class NotionalSchedule(BaseSchedule):
         if notional_amount.shape == (1,):
             self.df['notional'] = notional_amount[0]
             self.df['notional_payment'] = 0
-        elif notional_amount.shape == self.df.shape[0]:
+        elif notional_amount.shape == (self.df.shape[0],):
             self.df['notional'] = notional_amount
-            self.df['notional_payment'] = notional_amount[:-1] - notional_amount[1:]
+            self.df['notional_payment'] = np.append(notional_amount[:-1] - notional_amount[1:], 0)
         else:
             raise ValueError("Invalid notional_amount shape")
 
-- 
2.43.0


From d980fbff65c58db73a593831d91fd719c34cd7ae Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 013/100] fix: create_date_grid_for_fx_exposures for every
 sampling frequency

---
 frm/enums/utils.py    |  2 +-
 frm/utils/schedule.py | 21 +++++----------------
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/frm/enums/utils.py b/frm/enums/utils.py
index 90a4261..a0402d2 100644
--- a/frm/enums/utils.py
+++ b/frm/enums/utils.py
@@ -378,7 +378,7 @@ class PeriodFreq(Enum):
             'monthly': ['m', 'month', 'months', 'mon', '1m', '1mo', '1month', '1months'],
             'quarterly': ['q', 'quarter', 'quarters', 'quart', '3m', '3mo', '3month', '3months'],
             'semiannual': ['s','sa', 'semiannual', 'semiannually', 'semi','6m', '6mo', '6month', '6months'],
-            'annual': ['a', 'year', 'years', 'yrs', 'yr', 'annually', '1y', '1yr', '1year', '1years'],
+            'annual': ['a', 'year', 'years', 'yrs', 'yr', 'annually', '12m', '1y', '1yr', '1year', '1years'],
             'zerocoupon': ['z', 'zc', 'zerocoupon', 'zero']
         }
 
diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 0311a64..5a1921a 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -609,23 +609,12 @@ def create_date_grid_for_fx_exposures(curve_date: pd.Timestamp,
     # There is a pototo/potata view on if a cashflow has value on the settlement date. 
     # Our default view is no, it should be in accounts receivable, but this can be toggled. 
     
-    delivery_dates = np.unique(delivery_dates) 
+    delivery_dates = pd.DatetimeIndex(np.unique(delivery_dates))
     max_settlement_date = delivery_dates.max()
     
     if sampling_freq is not None:    
-        if sampling_freq == '1d':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'days', 'forward')
-        elif sampling_freq == '1w':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'weeks', 'forward')
-        elif sampling_freq == '1m':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'months', 'forward')
-        elif sampling_freq == '3m':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 3, 'months', 'forward')    
-        elif sampling_freq == '6m':
-             date_grid = generate_date_schedule(curve_date, max_settlement_date, 6, 'months', 'forward')
-        elif sampling_freq == '12m':
-             date_grid = generate_date_schedule(curve_date, max_settlement_date, 12, 'months', 'forward') 
-             
+        date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.from_value(sampling_freq), 'forward')
+
         date_grid = pd.DatetimeIndex([curve_date]).append(pd.DatetimeIndex(date_grid[1]))
         
     elif date_grid_pillar is not None:
@@ -639,14 +628,14 @@ def create_date_grid_for_fx_exposures(curve_date: pd.Timestamp,
             last_day_of_value = delivery_dates
         else: 
             last_day_of_value = delivery_dates - pd.DateOffset(days=1)
-        date_grid = pd.DatetimeIndex(np.concatenate(date_grid.values, last_day_of_value))
+        date_grid = date_grid.append(last_day_of_value)
 
     elif include_day_after_last_day_of_value:
         if payments_on_value_date_have_value:
             last_day_of_value = delivery_dates + pd.DateOffset(days=1)
         else: 
             last_day_of_value = delivery_dates 
-        date_grid = pd.DatetimeIndex(np.concatenate(date_grid.values, last_day_of_value))
+        date_grid = date_grid.append(last_day_of_value)
 
     date_grid = date_grid.drop_duplicates().sort_values()
     return date_grid
-- 
2.43.0


From fd5ddbd9a41e75588d370afa943ce1ca23040c3b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 014/100] fix: add_period_yearfrac without add_period_daycount

---
 frm/utils/schedule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 5a1921a..ca4dc43 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -128,7 +128,9 @@ class BaseSchedule:
         mask = np.logical_and(self.df['period_start'].notnull(), self.df['period_end'].notnull())
         years = np.full(self.df.shape[0], np.nan)
         years[mask] = year_frac(self.df['period_start'][mask], self.df['period_end'][mask], day_count_basis)
-        self.df.insert(loc=col_index + 2, column='period_yearfrac', value=years)
+        # 'period_yearfrac' follows 'period_daycount' (if it has been added)
+        loc = col_index + 2 if 'period_daycount' in self.df.columns else col_index + 1
+        self.df.insert(loc=loc, column='period_yearfrac', value=years)
 
 
 @dataclass
-- 
2.43.0


From c4d959baa982b68eae9e46b1192f7213f26b06a1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 015/100] fix: parse missing and numeric day count bases

---
 frm/enums/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/enums/utils.py b/frm/enums/utils.py
index a0402d2..3195b81 100644
--- a/frm/enums/utils.py
+++ b/frm/enums/utils.py
@@ -208,7 +208,9 @@ class DayCountBasis(Enum):
         """Create an enum member from the given value, if valid."""
         
         def specific_cleaning(value):
-            value = value.replace('actual','act')
+            if value is None:
+                return value
+            value = str(value).replace('actual','act') # '30360' has been converted to an integer
             if value == 'act/365fixed':
                 value = 'act/365'
             return value        
-- 
2.43.0


From d40f563b743f346e519b122819fac8ce9575bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 016/100] fix: do not modify the caller's pillar DataFrame

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index ebe7abd..4729d1d 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -34,7 +34,7 @@ class ZeroCurve:
     
     def __post_init__(self, compounding_freq):
         
-        pillar_df = self.pillar_df
+        pillar_df = self.pillar_df.copy() # the caller's DataFrame is left unchanged
         if compounding_freq is None and 'zero_rate' in pillar_df.columns:
             raise ValueError("'compounding_freq' must be specified zero rates specified in 'pillar_df'")
             
-- 
2.43.0


From a16996d2f39b2ec36429c660df50a2529c88cfad Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 017/100] fix: accept pillars that include the curve date

---
 frm/term_structures/zero_curve.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 4729d1d..db0be5f 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -85,7 +85,11 @@ class ZeroCurve:
             
         pillar_df = pillar_df.sort_values(by='years', ascending=True).reset_index(drop=True)
         pillar_df = convert_column_to_consistent_data_type(pillar_df)
-            
+
+        if Y_column_name == 'discount_factor':
+            # The zero rate is undefined at t=0, the pillar point at t=0 is added below
+            pillar_df = pillar_df[pillar_df['years'] != 0].reset_index(drop=True)
+
         if Y_column_name == 'zero_rate':
             pillar_df['discount_factor'] = compounding_freq.calc_discount_factor_from_zero_rate(
                 years=pillar_df['years'],
@@ -140,6 +144,8 @@ class ZeroCurve:
                     x = pillar_df['years'].to_list()
                     y = pillar_df['cczr'].to_list()
                     self.cubic_spline_definition = splrep(x=x, y=y, k=3)
+                case ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
+                    pass # interpolated directly from the pillar points
                 case _:
                     raise ValueError(f"Invalid interpolation method {self.interp_method}")
 
-- 
2.43.0


From 5c76d8e935982d5bab37f7a3b1207a72c0be2f56 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 018/100] fix: query linear curves by years

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index db0be5f..81dab66 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -334,7 +334,7 @@ class ZeroCurve:
             raise ValueError('Only one input among days, date, or years is allowed.')            
         
         if years is not None:
-            if self.interp_method == 'linear_on_ln_discount':
+            if self.interp_method == ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
                 ln_df_interp = np.interp(x=years, xp=self.pillar_df['years'], fp= np.log(self.pillar_df['discount_factor']))
                 cczr = -1 * ln_df_interp / years
                 discount_factor = np.exp(ln_df_interp)
-- 
2.43.0


From 0ef46ee73b079c3ded4fc319ad386f71abaf660c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 019/100] fix: return one result per date outside the curve's
 range

---
 frm/term_structures/zero_curve.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 81dab66..faa0e78 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -372,30 +372,21 @@ class ZeroCurve:
             # Check if any of the dates are outside the available data
             min_date = self.daily_df['date'].min()
             below_range = dates < min_date
-            dates_below = []
             if any(below_range):
-                bound_date = self.daily_df['date'].min()
-                for i,date in enumerate(dates[below_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_below.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_below.append(bound_date)
-            
+                for date in dates[below_range]:
+                    print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + min_date.strftime('%Y-%m-%d') + msg)
+
             max_date = self.daily_df['date'].max()
             above_range = dates > max_date
-            dates_above = []
             if any(above_range):
-                bound_date = self.daily_df['date'].max()
-                for i,date in enumerate(dates[above_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_above.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_above.append(bound_date)
-          
-            in_range = np.logical_and(np.logical_not(below_range),np.logical_not(above_range))
-            cleaned_dates = dates_below + list(dates[in_range].values) + dates_above
+                for date in dates[above_range]:
+                    print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + max_date.strftime('%Y-%m-%d') + msg)
+
+            # One row per date, in the order of the dates
+            if self.extrap_method == ZeroCurveExtrapMethod.FLAT:
+                cleaned_dates = dates.where(~below_range, min_date).where(~above_range, max_date)
+            else:
+                cleaned_dates = dates.where(~(below_range | above_range))
             df = pd.merge(pd.DataFrame(data=cleaned_dates, columns=['date']), self.daily_df, left_on='date',right_on='date', how='left')
             return df    
 
-- 
2.43.0


From 0e8b5b04d98d7a366f277a42475f52823ea9ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 020/100] fix: query curves by a vector of days

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index faa0e78..d905386 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -352,7 +352,7 @@ class ZeroCurve:
             return pd.DataFrame({'years': years, 'cczr': cczr, 'discount_factor': discount_factor})
         else:
             if days is not None:
-                dates = self.curve_date + dt.timedelta(days=days)
+                dates = self.curve_date + pd.to_timedelta(days, unit='D')
 
             dates = pd.to_datetime(dates)
             if not(isinstance(dates, pd.DatetimeIndex)):
-- 
2.43.0


From e63ec9e10fdf635a2aecf516860442ec101b6147 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 021/100] fix: continuous rates of simple zero rate pillars

---
 frm/term_structures/zero_curve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index d905386..4fc757b 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -95,6 +95,11 @@ class ZeroCurve:
                 years=pillar_df['years'],
                 zero_rate=pillar_df['zero_rate'])
             pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
+            if compounding_freq == CompoundingFreq.SIMPLE:
+                # The simple rate of a maturity is not an annual rate, the discount factor defines the continuous rate
+                mask = pillar_df['years'] > 0
+                pillar_df.loc[mask, 'cczr'] = -1 * np.log(pillar_df['discount_factor'][mask]) / pillar_df['years'][mask]
+                pillar_df.loc[~mask, 'cczr'] = pillar_df['zero_rate'][~mask]
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
             # Add continuously compounded interest rate for internal use
-- 
2.43.0


From 6644925cff75d60fd348f08b08ecb8e3dcbb543e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 022/100] fix: cover the last pillar of curves given in years

---
 frm/term_structures/zero_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 4fc757b..bf7979c 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -166,8 +166,8 @@ class ZeroCurve:
         if 'date' in self.pillar_df.columns:
             max_date = max(self.pillar_df['date'])
         else:
-            max_years = int(max(self.pillar_df['years']))
-            max_date = self.curve_date + relativedelta(years=max_years)
+            max_years = max(self.pillar_df['years'])
+            max_date = self.curve_date + relativedelta(years=int(max_years))
             while year_frac(self.curve_date, max_date, self.day_count_basis) < max_years:
                 max_date += dt.timedelta(days=1)
                 
-- 
2.43.0


From 4d63bdb7db9832ee48a3daffe413f7130c58f754 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 023/100] fix: flat_shift of a ZeroCurve

---
 frm/term_structures/zero_curve.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index bf7979c..06ae609 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -206,17 +206,17 @@ class ZeroCurve:
        
     def flat_shift(self, 
                    basis_points: float=1) -> 'ZeroCurve':
-        dates = list(self.pillar_df.keys())
-        years = year_frac(self.curve_date, dates, self.day_count_basis)
-        shifted = - np.log(list(self.pillar_df.values)) / years + basis_points / 10000
-        shifted = pd.DataFrame({'date': dates,
-                                'years': years,
-                                'discount_factor':np.exp(-shifted * years)})
-        shifted.loc[0,'discount_factor'] = 1.0 # set the discount factor on the curve date to be 1.0
-        return ZeroCurve(curve_date=self.curve_date, 
+        # Shifts the continuously compounded zero rates of the pillar points
+        X_column_name = 'date' if 'date' in self.pillar_df.columns else 'years'
+        shifted = self.pillar_df[[X_column_name, 'discount_factor']].copy()
+        shifted['discount_factor'] *= np.exp(-1 * (basis_points / 10000) * self.pillar_df['years'])
+        return ZeroCurve(curve_date=self.curve_date,
                          pillar_df=shifted,
-                         day_count_basis=self.day_count_basis)
-                   
+                         day_count_basis=self.day_count_basis,
+                         cal=self.cal,
+                         interp_method=self.interp_method,
+                         extrap_method=self.extrap_method)
+
     def get_forward_rates(self,
                           period_start: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
                           period_end: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
-- 
2.43.0


From 7651b3b306d7919fc301d5a00e0bae3ae3240a65 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 024/100] fix: averaged forward rates on ACT/ACT curves

---
 frm/term_structures/zero_curve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 06ae609..04ee1a6 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -245,7 +245,11 @@ class ZeroCurve:
             dates = pd.date_range(start=period_start.min(), end=period_end.max(), freq='D')
             discount_factors = self.get_discount_factors(dates=dates)
             daily_interest_multiplier = discount_factors[:-1] / discount_factors[1:]
-            daily_simple_interest_rate = (daily_interest_multiplier - 1) * self.day_count_basis.days_per_year
+            if self.day_count_basis == DayCountBasis.ACT_ACT:
+                # No fixed number of days per year
+                daily_simple_interest_rate = (daily_interest_multiplier - 1) / year_frac(dates[:-1], dates[1:], self.day_count_basis)
+            else:
+                daily_simple_interest_rate = (daily_interest_multiplier - 1) * self.day_count_basis.days_per_year
             dates_np = dates.to_numpy(dtype='datetime64[D]')
             busday_flag = pd.Series(np.is_busday(dates_np, busdaycal=self.cal), index=dates)
             
-- 
2.43.0


From 24e6d009958ce15f7e596b46a30023c50bee0330 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 025/100] fix: curves with pillars in days

---
 frm/term_structures/zero_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 04ee1a6..f632f9d 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -125,8 +125,8 @@ class ZeroCurve:
                     x = [0.0] + pillar_df['years'].to_list()
                     y = [0.0] + np.log(pillar_df['discount_factor']).to_list()
                     self.cubic_spline_definition = splrep(x=x, y=y, k=3)
-                    dt = 1e-6 # small number to avoid division by zero
-                    first_row['cczr'] = -1 * splev(x=dt, tck=self.cubic_spline_definition, der=0) / dt
+                    delta = 1e-6 # small number to avoid division by zero
+                    first_row['cczr'] = -1 * splev(x=delta, tck=self.cubic_spline_definition, der=0) / delta
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_CCZR:
                     x = pillar_df['years'].to_list()
                     y = pillar_df['cczr'].to_list()
-- 
2.43.0


From c4169b0680f3ebdc4f504df368c4db782fba5925 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 026/100] fix: ACT/ACT year fraction of an empty period is
 exactly zero

---
 frm/utils/daycount.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/utils/daycount.py b/frm/utils/daycount.py
index b63cfaa..0887d9b 100644
--- a/frm/utils/daycount.py
+++ b/frm/utils/daycount.py
@@ -151,6 +151,7 @@ def year_frac(start_date,
         total_sum += diff_first.days / year_1_diff
         diff_second = end_dti - pd.DatetimeIndex([dt.datetime(v, 1, 1) for v in end_year]) 
         total_sum += diff_second.days / year_2_diff
+        total_sum = total_sum.where(start_dti != end_dti, 0.0) # removes the floating point error of an empty period
 
         if scalar_output:
             return total_sum.item()
-- 
2.43.0


From e0b009fbc425049ff108e2472a0c2dcf23c64ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 027/100] fix: flat_shift keeps the rate at t=0

---
 frm/term_structures/zero_curve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index f632f9d..60f458e 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -208,10 +208,11 @@ class ZeroCurve:
                    basis_points: float=1) -> 'ZeroCurve':
         # Shifts the continuously compounded zero rates of the pillar points
         X_column_name = 'date' if 'date' in self.pillar_df.columns else 'years'
-        shifted = self.pillar_df[[X_column_name, 'discount_factor']].copy()
-        shifted['discount_factor'] *= np.exp(-1 * (basis_points / 10000) * self.pillar_df['years'])
+        shifted = self.pillar_df[[X_column_name, 'cczr']].rename(columns={'cczr': 'zero_rate'})
+        shifted['zero_rate'] += basis_points / 10000
         return ZeroCurve(curve_date=self.curve_date,
                          pillar_df=shifted,
+                         compounding_freq=CompoundingFreq.CONTINUOUS,
                          day_count_basis=self.day_count_basis,
                          cal=self.cal,
                          interp_method=self.interp_method,
-- 
2.43.0


From 8fa570bc20542b3790b1d45ab7184aaf31b20bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 028/100] fix: RFR coupon rates of periods that start or end on
 a day without a fixing

---
 .../historical_swap_index_fixings.py               | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index 63fbae8..bae4398 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -37,13 +37,15 @@ class RFRFixings(HistoricalSwapIndexFixings):
         observations_start = period_start
         observations_end = period_end - pd.DateOffset(days=1)
 
-        mask = np.logical_and(self.fixings['date'] >= observations_start.min(),
-                              self.fixings['date'] <= observations_end.max())
+        # A day without a fixing (weekend, holiday) uses the preceding fixing, which may be before the observation period
+        mask = self.fixings['date'] <= observations_end.max()
         applicable_fixings = self.fixings.loc[mask,:].sort_values('date', ascending=True).reset_index(drop=True)
 
-
-        if observations_end.max() > applicable_fixings['date'].max() \
-            or observations_end.min() < applicable_fixings['date'].min():
+        # There are no fixings on a weekend
+        last_fixing_required = np.busday_offset(observations_end.max().to_datetime64().astype('datetime64[D]'), 0, roll='preceding')
+        if applicable_fixings.empty \
+            or last_fixing_required > applicable_fixings['date'].max() \
+            or observations_start.min() < applicable_fixings['date'].min():
             raise ValueError('Observation period extends beyond available fixing data.')
 
         coupon_rates = [self._calculate_coupon_rate(s, e, applicable_fixings, cpn_calc_method)
@@ -64,7 +66,7 @@ class RFRFixings(HistoricalSwapIndexFixings):
             return periods_ois_fixings['fixing'].mean()
 
         date_range = pd.date_range(start=observation_start, end=observation_end, freq='D')
-        df = pd.merge_asof(pd.DataFrame({'date': date_range}), periods_ois_fixings, on='date', direction='backward')
+        df = pd.merge_asof(pd.DataFrame({'date': date_range}), fixings, on='date', direction='backward')
 
         if method == RFRFixingCalcMethod.DAILY_COMPOUNDED:
             df['daily_interest'] = 1 + df['fixing'] / self.day_count_basis.days_per_year
-- 
2.43.0


From 5f9fdc6cbae2d060fc738ec793f637a7796ed3db Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 029/100] fix: term fixings need not be sorted

---
 frm/term_structures/historical_swap_index_fixings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index bae4398..8b07a43 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -92,7 +92,7 @@ class TermFixings(HistoricalSwapIndexFixings):
         date_df_sorted = date_df.sort_values('date').reset_index(drop=False)
 
         # Perform merge_asof with the sorted dates
-        df = pd.merge_asof(date_df_sorted, self.fixings, on='date', direction='backward')
+        df = pd.merge_asof(date_df_sorted, self.fixings.sort_values('date'), on='date', direction='backward')
 
         df_sorted_back = df.sort_values('index').set_index('index') # Restore the original order of the input dates
 
-- 
2.43.0


From 234f78b6465ecaed9bbd544b19f3a24cf9df6ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 030/100] fix: TermSwapCurve fixes past periods historically
 and future periods from the curve

---
 frm/term_structures/swap_curve.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 1debf8b..70b6410 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -38,17 +38,19 @@ class TermSwapCurve:
         #   Would be nice to have public API to call for data whenever needed for examples.
         # Get forward fixings
         mask_future = period_start >= self.zero_curve.curve_date
-        forward_fixings = self.zero_curve.get_forward_rates(
-            period_start=period_start[mask_future],
-            period_end=period_end[mask_future],
-            forward_rate_type=cpn_calc_method)
-        fixings[mask_future] = forward_fixings
+        if mask_future.any():
+            forward_fixings = self.zero_curve.get_forward_rates(
+                period_start=period_start[mask_future],
+                period_end=period_end[mask_future],
+                forward_rate_type=cpn_calc_method)
+            fixings[mask_future] = forward_fixings
 
         # Get historical fixings
-        mask_historical = period_start >= self.zero_curve.curve_date
-        historical_fixings = self.historical_fixings.index_historical_fixings(
-            fixing_dates=period_start[mask_historical])
-        fixings[mask_historical] = historical_fixings
+        mask_historical = period_start < self.zero_curve.curve_date
+        if mask_historical.any():
+            historical_fixings = self.historical_fixings.index_historical_fixings(
+                fixing_dates=period_start[mask_historical])
+            fixings[mask_historical] = historical_fixings
 
         return fixings
 
-- 
2.43.0


From a8d6cf91200b9948afc9aade0f939e75d0a675f9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 031/100] fix: do not compound averaged coupons over the curve
 date

---
 frm/term_structures/swap_curve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 70b6410..f8912c6 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -120,6 +120,11 @@ class RFRSwapCurve:
             period_end=crossover_period_end,
             forward_rate_type=cpn_calc_method)
 
+        if cpn_calc_method != RFRFixingCalcMethod.DAILY_COMPOUNDED:
+            # Averages do not compound
+            return (historical_year_frac * historical_component + future_year_frac * future_component) \
+                   / (historical_year_frac + future_year_frac)
+
         crossover_rate = (historical_year_frac * historical_component
                           + (1 + historical_year_frac * historical_component) * future_year_frac * future_component) \
                          / (historical_year_frac + future_year_frac)
-- 
2.43.0


From 60d0d48a4285706164921287c921b2f68fa1e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 032/100] fix: RFR coupon rates of periods that end on a
 holiday

---
 frm/term_structures/historical_swap_index_fixings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index 8b07a43..87d079e 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -44,7 +44,7 @@ class RFRFixings(HistoricalSwapIndexFixings):
         # There are no fixings on a weekend
         last_fixing_required = np.busday_offset(observations_end.max().to_datetime64().astype('datetime64[D]'), 0, roll='preceding')
         if applicable_fixings.empty \
-            or last_fixing_required > applicable_fixings['date'].max() \
+            or last_fixing_required > self.fixings['date'].max() \
             or observations_start.min() < applicable_fixings['date'].min():
             raise ValueError('Observation period extends beyond available fixing data.')
 
-- 
2.43.0


From 18dc0aecfe52e220b0b32871d4259b1eec9bed9c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 033/100] fix: zero curve queries by a named Series of dates

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 60f458e..9f47161 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -397,7 +397,7 @@ class ZeroCurve:
                 cleaned_dates = dates.where(~below_range, min_date).where(~above_range, max_date)
             else:
                 cleaned_dates = dates.where(~(below_range | above_range))
-            df = pd.merge(pd.DataFrame(data=cleaned_dates, columns=['date']), self.daily_df, left_on='date',right_on='date', how='left')
+            df = pd.merge(pd.DataFrame({'date': cleaned_dates}), self.daily_df, left_on='date',right_on='date', how='left')
             return df    
 
        
-- 
2.43.0


From 7f13e86f0f0b091a2974da335aaebd1ec43d237e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 034/100] fix: cash deposits given by effective and maturity
 date

---
 frm/term_structures/bootstrap_helpers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 6dc12fd..5ee7d8d 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -14,21 +14,23 @@ def cash_rates_quote_helper(
         day_count_basis: DayCountBasis,
         settlement_delay: Optional[int]=None,
         settlement_date: Optional[pd.Timestamp]=None,
-        cal: np.busdaycalendar=np.busdaycalendar):
+        cal: np.busdaycalendar=np.busdaycalendar()):
 
     assert 'rate' in df.columns
     assert 'tenor' in df.columns or ('effective_date' in df.columns and 'maturity_date' in df.columns)
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(clean_tenor)
 
     if settlement_date is None:
         assert settlement_delay is not None
         settlement_date = workday(dates=curve_date, offset=settlement_delay, cal=cal)
 
     if 'effective_date' not in df.columns:
-        df['has_settlement_delay'] = df['tenor'] != 'on'
-        df.loc[~df['has_settlement_delay'],'effective_date'] = curve_date
-        df.loc[df['has_settlement_delay'],'effective_date'] = settlement_date
+        mask_overnight = df['tenor'] == 'on'
+        df.loc[mask_overnight,'effective_date'] = curve_date
+        df.loc[~mask_overnight,'effective_date'] = settlement_date
+    df['has_settlement_delay'] = df['effective_date'] > curve_date
 
     if 'maturity_date' not in df.columns:
         date_offset = df['tenor'].apply(tenor_to_date_offset).values
-- 
2.43.0


From 4bf9c98995837f351653c4d3186ab20486cf215c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 035/100] fix: ASX bank bill futures tickers

---
 frm/term_structures/bootstrap_helpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 5ee7d8d..560dbc4 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -130,11 +130,10 @@ def futures_helper_asx_90day(
             assert futures_month_code.isin(['H', 'M', 'U', 'Z']).all() # 'H', 'M', 'U', 'Z' for Mar, Jun, Sep, Dec
             df['months'] = futures_month_code.map({'H': 3, 'M': 6, 'U': 9, 'Z': 12})
 
-            assert df['ticker'].str.len().isin([1, 2, 4]).all()
-            futures_year_code = df['ticker'].str[3:].astype(int)  # 1-4-digit year code
+            futures_year_code = df['ticker'].str[3:]  # 1, 2 or 4-digit year code
+            assert futures_year_code.str.len().isin([1, 2, 4]).all()
 
-            def resolve_year(year_code):
-                year_code_str = str(year_code)
+            def resolve_year(year_code_str):
                 if len(year_code_str) == 1:
                     # Map single-digit year codes to 2020-2029
                     # TODO: does not support cases where the futures schedule spans multiple decades. i.e from 2028-2031.
-- 
2.43.0


From b8a5474a8b40ad9892669ccb2a0ff877c16387cb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 036/100] fix: futures contract dates follow the rows of the
 table

---
 frm/term_structures/bootstrap_helpers.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 560dbc4..2e370e5 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -157,18 +157,16 @@ def futures_helper_asx_90day(
 
 
     expiry_dates, settlement_dates = [], []
-    for years in range(df['years'].min(), df['years'].max()+1):
-        for months in [3, 6, 9, 12]:
-            if ((df['years'] == years) & (df['months'] == months)).any():
-                # Settlement Day = 2nd Friday of each delivery month (Mar, Jun, Sep, Dec).
-                # Start from the 1st of the month and get all Fridays in the month
-                month_start = pd.Timestamp(year=years, month=months, day=1)
-                fridays = [d for d in pd.date_range(month_start, month_start + pd.offsets.MonthEnd(), freq='W-FRI')]
-                settlement_date = fridays[1] # Get the second Friday
-                settlement_dates.append(settlement_date)
-
-                # Expiry date is the business day before settlement date
-                expiry_dates.append(settlement_date - pd.offsets.BDay(1))
+    for years, months in zip(df['years'], df['months']):
+        # Settlement Day = 2nd Friday of each delivery month (Mar, Jun, Sep, Dec).
+        # Start from the 1st of the month and get all Fridays in the month
+        month_start = pd.Timestamp(year=years, month=months, day=1)
+        fridays = [d for d in pd.date_range(month_start, month_start + pd.offsets.MonthEnd(), freq='W-FRI')]
+        settlement_date = fridays[1] # Get the second Friday
+        settlement_dates.append(settlement_date)
+
+        # Expiry date is the business day before settlement date
+        expiry_dates.append(settlement_date - pd.offsets.BDay(1))
 
     df['expiry_date'] = expiry_dates
     df['settlement_date'] = settlement_dates
-- 
2.43.0


From 1d82a295319b687cf5db5a9fe249fce597440f30 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 037/100] fix: FX term structures given by fixing or delivery
 date

---
 frm/term_structures/fx_helpers.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 8f26775..0640c33 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -21,7 +21,9 @@ def fx_term_structure_helper(df: pd.DataFrame,
                              cal: np.busdaycalendar,
                              rate_set_date_str: str) -> pd.DataFrame:
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
+    df = df.copy()
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(lambda tenor: clean_tenor(tenor) if pd.notna(tenor) else tenor)
 
     mandatory_columns_at_least_one_of = [['tenor',rate_set_date_str,'delivery_date']]
     for column_set in mandatory_columns_at_least_one_of:
@@ -33,16 +35,18 @@ def fx_term_structure_helper(df: pd.DataFrame,
         df[column] = df[column].astype('datetime64[ns]')
 
     # Input hierarchy is:
-    # 1. Use the delivery date if it is available.
+    # 1. Use the delivery date if it is available (the rate-set date is calculated from it if missing).
     # 2. Otherwise, calculate the delivery date from the rate-set date ('fixing_date' for forwards, 'expiry_date' for options
     # 3. Otherwise, calculate the rate-set date and delivery date from the tenor
     for i, row in df.iterrows():
         if pd.notna(row['delivery_date']):
-            pass
+            if pd.isna(row[rate_set_date_str]):
+                delivery_date_np = row['delivery_date'].to_numpy().astype('datetime64[D]')
+                df.at[i,rate_set_date_str] = np.busday_offset(delivery_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
         elif pd.notna(row[rate_set_date_str]):
-            rate_set_date_np = row[rate_set_date_str].astype('datetime64[D]')
-            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
-        elif pd.notna(row['tenor']):
+            rate_set_date_np = row[rate_set_date_str].to_numpy().astype('datetime64[D]')
+            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
+        elif 'tenor' in df.columns and pd.notna(row['tenor']):
             date_offset = tenor_to_date_offset(row['tenor'])
             rate_set_date = curve_date + date_offset
             rate_set_date_np = rate_set_date.to_numpy().astype('datetime64[D]')
-- 
2.43.0


From 176d647c521bc128e249102e2a75abe2e1739f95 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 038/100] fix: EUR/USD uses the regular delta

---
 frm/term_structures/fx_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 0640c33..e6a7bfa 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -108,7 +108,7 @@ def validate_ccy_pair(ccy_pair):
 
 def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
-    bool_cond = np.logical_and(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd'],
+    bool_cond = np.logical_and(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd'],
                                df['delta_convention'].str.contains('premium_adjusted'))
     df.loc[bool_cond, 'warnings'] += 'the regular delta is the market delta_convention for this currency pair\n'
     if bool_cond.any():
@@ -118,7 +118,7 @@ def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
     conditions_for_premium_adjusted_delta_convention = [
-        np.full(len(df), np.logical_not(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd', 'usdaud', 'usdeur', 'usdgbp', 'usdnzd'])),
+        np.full(len(df), np.logical_not(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd', 'usdaud', 'usdeur', 'usdgbp', 'usdnzd'])),
         np.full(len(df), 'usd' in ccy_pair),
         df['delta_convention'].str.contains('regular').values]
     bool_cond = np.logical_and.reduce(conditions_for_premium_adjusted_delta_convention)
-- 
2.43.0


From 9fded21b347f0ad2336512707602ab8767672b32 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 039/100] fix: price a vector of options on one market

---
 frm/pricing_engine/garman_kohlhagen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 0ad0f8e..a4751fd 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -80,7 +80,8 @@ def garman_kohlhagen_price(
     assert np.all(np.isin(cp, [1, -1])), cp
     assert cp.shape == σ.shape
     assert cp.shape == K.shape
-    
+    S0, tau, r_d, r_f = (np.broadcast_to(x, K.shape) if x.size == 1 else x for x in (S0, tau, r_d, r_f))
+
     if F is not None: 
         # Use market forward rate and imply the currency basis-adjusted domestic interest rate
         F = np.atleast_1d(F).astype(float)
-- 
2.43.0


From 5c1acc890eca9cec29d99caa471191c2482bef29 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 040/100] fix: Garman-Kohlhagen analytical theta

---
 frm/pricing_engine/garman_kohlhagen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index a4751fd..531a559 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -122,9 +122,9 @@ def garman_kohlhagen_price(
         results['analytical_greeks']['vega'] = analytical_formula * 0.01 # normalised to 1% change
 
         # Per market convention, theta is normalised to the price decay for 1 calendar day.
-        analytical_formula = -(S0*np.exp(-r*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
-            + q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
-            - r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
+        analytical_formula = -(S0*np.exp(-q*tau)*norm.pdf(d1)*σ)/(2*np.sqrt(tau)) \
+            + cp * q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
+            - cp * r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
         results['analytical_greeks']['theta'] = analytical_formula * 1/365.25 # normalised to 1 calendar day
 
         # In practice, gamma is  normalised to measure the change in Δ, for a 1% change in the underlying assets price.
-- 
2.43.0


From 3bdf48cc012f3930d7452de81e51008d84bf4453 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 041/100] fix: Garman-Kohlhagen analytical rho

---
 frm/pricing_engine/garman_kohlhagen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 531a559..dd3726a 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -134,7 +134,7 @@ def garman_kohlhagen_price(
 
         # In practice, Rho is normalised to measure the change in price for a 1% change in the underlying interest rate.
         # Hence, we have multiplied the analytical formula result by 0.01 (i.e. 1%)
-        analytical_formula = K * tau * np.exp(-q * tau) * norm.cdf(cp * d2)
+        analytical_formula = cp * K * tau * np.exp(-r * tau) * norm.cdf(cp * d2)
         results['analytical_greeks']['rho'] = analytical_formula * 0.01
 
 
-- 
2.43.0


From 851777d33e4c0a8d35d28419a4a628323fe6655c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 042/100] fix: Garman-Kohlhagen numerical greeks

---
 frm/pricing_engine/garman_kohlhagen.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index dd3726a..6c87c84 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -139,21 +139,18 @@ def garman_kohlhagen_price(
 
 
     if numerical_greeks:
-        numerical_greeks = pd.DataFrame()
+        results['numerical_greeks'] = pd.DataFrame()
 
         Δ_shift = 1 / 100  # 1% shift
         σ_shift = 1 / 100  # 1% shift
         θ_shift = 1 / 365.25  # 1 calendar day
         ρ_shift = 1 / 100  # 1% shift
 
-        if F is not None:
-            F_upshift, F_downshift = F * (1 + Δ_shift), F * (1 - Δ_shift)
-        else:
-            F_upshift, F_downshift = None, None
+        # A market forward rate is allowed for by the (basis-adjusted) domestic rate, which is held when the other inputs are shifted
 
-        results_S0_plus = garman_kohlhagen_price(S0=S0*(1+Δ_shift), tau=tau, r_d=r_d, r_f=r_f , cp=cp, K=K, vol=σ, F=F_upshift,analytical_greeks=True)
+        results_S0_plus = garman_kohlhagen_price(S0=S0*(1+Δ_shift), tau=tau, r_d=r, r_f=q, cp=cp, K=K, vol=σ, analytical_greeks=True)
         X_S_plus, analytical_greeks_S0_plus = results_S0_plus['price'], results_S0_plus['analytical_greeks']
-        results_S0_minus = garman_kohlhagen_price(S0=S0*(1-Δ_shift), tau=tau, r_d=r_d, r_f=r_f, cp=cp, K=K, vol=σ, F=F_downshift,analytical_greeks=True)
+        results_S0_minus = garman_kohlhagen_price(S0=S0*(1-Δ_shift), tau=tau, r_d=r, r_f=q, cp=cp, K=K, vol=σ, analytical_greeks=True)
         X_S_minus, analytical_greeks_S0_minus = results_S0_minus['price'], results_S0_minus['analytical_greeks']
 
         # Delta, Δ, is the change in an option's price for a small change in the underlying assets price.
@@ -162,13 +159,13 @@ def garman_kohlhagen_price(
         # and S0 is the fx spot price (whose units is DOM/FOR)
         # To get the Δ % applicable to the foreign currency notional multiply the below by S0.
         results['numerical_greeks']['spot_delta'] = (X_S_plus - X_S_minus) / (2 * S0 * Δ_shift)
-        results['numerical_greeks']['forward_delta'] = numerical_greeks['spot_delta'] / np.exp(-r_f * tau)
+        results['numerical_greeks']['forward_delta'] = results['numerical_greeks']['spot_delta'] / np.exp(-q * tau)
 
         # Vega, ν, is the change in an options price for a small change in the volatility input
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
         # We divide by 0.01 (1%) to normalise the vega to a 1% change in the volatility input, per market convention.
-        X_σ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f, cp=cp, K=K, vol=σ+σ_shift, F=F)['price']
-        X_σ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f, cp=cp, K=K, vol=σ-σ_shift, F=F)['price']
+        X_σ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r, r_f=q, cp=cp, K=K, vol=σ+σ_shift)['price']
+        X_σ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r, r_f=q, cp=cp, K=K, vol=σ-σ_shift)['price']
         results['numerical_greeks']['vega'] = (X_σ_plus - X_σ_minus) / (2 * (σ_shift / 0.01))
 
         # Theta, θ, is the change in an options price for a small change in the time to expiry
@@ -178,8 +175,8 @@ def garman_kohlhagen_price(
         #               i.e., the time value price tomorrow minus the time value price today.
         # 2. Cost of carry: the interest rate sensitivity that causes the value of the portfolio to change as time progresses,
         #                   e.g., the cost of carry on spots and forwards is included in the theta value.
-        X_plus = garman_kohlhagen_price(S0=S0, tau=tau+θ_shift, r_d=r_d, r_f=r_f, cp=cp, K=K, vol=σ, F=F)['price']
-        X_minus = garman_kohlhagen_price(S0=S0, tau=tau-θ_shift, r_d=r_d, r_f=r_f, cp=cp, K=K, vol=σ, F=F)['price']
+        X_plus = garman_kohlhagen_price(S0=S0, tau=tau+θ_shift, r_d=r, r_f=q, cp=cp, K=K, vol=σ)['price']
+        X_minus = garman_kohlhagen_price(S0=S0, tau=tau-θ_shift, r_d=r, r_f=q, cp=cp, K=K, vol=σ)['price']
         results['numerical_greeks']['theta'] = (X_minus - X_plus) / 2
 
         # Gamma, Γ, is the change in an option's delta for a small change in the underlying assets price.
@@ -187,9 +184,8 @@ def garman_kohlhagen_price(
         results['numerical_greeks']['gamma'] = (analytical_greeks_S0_plus['spot_delta'] - analytical_greeks_S0_minus['spot_delta']) / (2 * (Δ_shift / 0.01))
 
         # Rho, ρ, is the rate at which the price of an option changes relative to a change in the interest rate.
-        # This formulae will yield meaningfully different results on whether the forward rate is an input (or if it is calculated from the interest rate differential)
-        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ+σ_shift, F=F)['price']
-        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ-σ_shift, F=F)['price']
+        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r+ρ_shift, r_f=q, cp=cp, K=K, vol=σ)['price']
+        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r-ρ_shift, r_f=q, cp=cp, K=K, vol=σ)['price']
         results['numerical_greeks']['rho'] = (X_ρ_plus - X_ρ_minus) / 2
 
     return results
-- 
2.43.0


From 91f2e4373b3b7042c9b3ee42a7f2a89b8c917856 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 043/100] fix: premium adjusted at-the-money quotes given as a
 put

---
 frm/pricing_engine/garman_kohlhagen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 6c87c84..d60bbc8 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -284,7 +284,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                        
         if np.any(mask_not_atm):
             for i in range(len(Δ)):
-                if Δ[i] != 0.5:
+                if mask_not_atm[i]:
                     # For premium adjusted quotes the strike must be solved numerically. Refer to [1] for full details.
 
                     def solve_delta(K_):
-- 
2.43.0


From 023084c75e09dba96e0559a099a7218bb1016014 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 044/100] fix: premium adjusted call strikes with a market
 forward

---
 frm/pricing_engine/garman_kohlhagen.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index d60bbc8..d13d09a 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -310,15 +310,15 @@ def garman_kohlhagen_solve_strike_from_delta(
                         # For the premium adjusted call Δ, due to non-monotonicity, two strikes can be solved numerically for call options (but not put options).
                         # To avoid this, we solve a lower bound, 'K_min' to guarantee we get the correct solution in the numerical solver.
                         # The lower bound is the 'maximum' Δ, hence we numerically solve the maximum Δ
-                        def solve_k_lower_bound(K): # TODO test and remove cp, F
-                            d1 = (np.log(S0 / K) + (r_d - r_f + 0.5 * σ[i]**2) * tau) / (σ[i] * np.sqrt(tau))
+                        def solve_k_lower_bound(K):
+                            d1 = (np.log(F / K) + 0.5 * σ[i]**2 * tau) / (σ[i] * np.sqrt(tau))
                             d2 = d1 - σ[i] * np.sqrt(tau)
                             return σ[i] * np.sqrt(tau) * norm.cdf(d2) - norm.pdf(d2)
                         
                         try: 
                             solution = root_scalar(solve_k_lower_bound, x0=F ,bracket=[0.00001, K_max])
-                        except ValueError('the numerical solve for K_min, for delta', Δ[i], ', resulted in an error'):
-                            pass
+                        except ValueError as error:
+                            raise ValueError('the numerical solve for K_min, for delta', Δ[i], ', resulted in an error') from error
                     
                         if solution.converged:
                             K_min = solution.root
@@ -327,8 +327,9 @@ def garman_kohlhagen_solve_strike_from_delta(
                         
                         try:
                             solution = root_scalar(solve_delta, x0=K_max, bracket=[K_min,K_max])
-                        except ValueError('the numerical solve for premium adjusted strike for delta', Δ[i], ', resulted in an error'):
-                            print('This is likely due to an error in the input, for example typos or specifying the delta_convention as spot-delta when it is actually forward-delta')
+                        except ValueError as error:
+                            raise ValueError('the numerical solve for premium adjusted strike for delta', Δ[i], ', resulted in an error. '
+                                             'This is likely due to an error in the input, for example typos or specifying the delta_convention as spot-delta when it is actually forward-delta') from error
                         
                     if solution.converged:
                         result[i] = solution.root
-- 
2.43.0


From 6378ad5cf79f4820dfbf1b22f58b0746f295188b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 045/100] fix: implied volatility must reprice the option

---
 frm/pricing_engine/garman_kohlhagen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index d13d09a..398d03b 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -400,7 +400,10 @@ def garman_kohlhagen_solve_implied_vol(
 
     try:
         # Try Netwon's method first (it's faster but less robust)
-        return newton(lambda vol_: error_function(vol_), x0=vol_guess, tol=1e-4, maxiter=50).item()
+        vol = newton(lambda vol_: error_function(vol_), x0=vol_guess, tol=1e-4, maxiter=50).item()
+        if not (vol > 0 and abs(error_function(vol)) <= 1e-4 * S0 * np.sqrt(tau)):
+            raise RuntimeError('Newton converged to a volatility which does not reprice the option')
+        return vol
     except RuntimeError:
         # Fallback to Brent's method
         try:
-- 
2.43.0


From cb647e2538bb4b38fb05a1fc58a9560c07c5801d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 046/100] fix: premium adjusted put strikes beyond the largest
 regular delta

---
 frm/pricing_engine/garman_kohlhagen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 398d03b..df415b7 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -303,6 +303,9 @@ def garman_kohlhagen_solve_strike_from_delta(
     
                     # Put Option
                     if Δ[i] < 0: 
+                        if np.isnan(K_max):
+                            # No strike has this regular Δ. For K > F, norm.cdf(-d2) > 0.5 which bounds the premium adjusted Δ.
+                            K_max = (F * np.maximum(1.0, -2 * Δ[i] * np.exp(r_f * tau))).item()
                         solution = root_scalar(solve_delta, x0=F, bracket=[0.000001, K_max])
                         
                     # Call Option
-- 
2.43.0


From 053e550ad189af77b139660434452a6caef44abe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 047/100] fix: intrinsic value of Black76 and Bachelier prices

---
 frm/pricing_engine/black76_bachelier.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index b3c0a6a..b153598 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -88,9 +88,7 @@ def black76_price(
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.broadcast_to(annuity_factor * np.maximum(0, cp * (F - K)), X.shape).copy()
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
@@ -254,9 +252,7 @@ def bachelier_price(
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.broadcast_to(annuity_factor * np.maximum(0, cp * (F - K)), X.shape).copy()
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
-- 
2.43.0


From bbd9260f385d5de76aed10b1813a8fb26fe524db Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 048/100] fix: Black76 and Bachelier price of an expired
 at-the-money option

---
 frm/pricing_engine/black76_bachelier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index b153598..fac4bf8 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -83,6 +83,7 @@ def black76_price(
     d1 = (np.log(F/K) + (0.5 * σB**2 * tau)) / (σB*np.sqrt(tau))
     d2 = d1 - σB*np.sqrt(tau)
     X = annuity_factor * cp * (F * norm.cdf(cp * d1) - K * norm.cdf(cp * d2))
+    X = np.where(tau == 0, annuity_factor * np.maximum(0, cp * (F - K)), X) # If time to expiry is 0.0, set to intrinsic value
 
     results = {'price': X}
 
@@ -247,6 +248,7 @@ def bachelier_price(
     # Price per Bachelier formula
     d = (F - K) / (σN * np.sqrt(tau))
     X = annuity_factor * ( cp * (F - K) * norm.cdf(cp * d) + σN * np.sqrt(tau) * norm.pdf(d) )
+    X = np.where(tau == 0, annuity_factor * np.maximum(0, cp * (F - K)), X) # If time to expiry is 0.0, set to intrinsic value
 
     results = {'price': X}
 
-- 
2.43.0


From 7b102d6ddcde73d99234034a0676919d0978ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 049/100] fix: Bachelier theta per calendar day

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index fac4bf8..d41d3bd 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -267,7 +267,7 @@ def bachelier_price(
         results['analytical_greeks']['vega'] = np.sqrt(tau) * norm.pdf(cp * d) * annuity_factor * 0.0001
 
         # Normalised to 1 calendar day.
-        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor / (1/365.25)
+        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor * (1/365.25)
 
     return results
 
-- 
2.43.0


From de2b0f99f1eadf983fecb891482ebde5df0edde7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 050/100] fix: numerical greeks of a shifted Black76 price

---
 frm/pricing_engine/black76_bachelier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index d41d3bd..c3e7533 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -108,9 +108,10 @@ def black76_price(
         # Delta, Δ, is the change in an option's price for a small change in the underlying assets (forward) price.
         # Δ := ∂X/∂F ≈ (X(F_plus) − X(F_minus)) / (F_plus - F_minus)
         Δ_shift = 0.01
-        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        # F and K include the log-normal shift, so no further shift is applied
+        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=σB, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=σB, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['delta'] = (results_F_plus['price'] - results_F_minus['price']) / (2 * F * Δ_shift)
 
@@ -118,9 +119,9 @@ def black76_price(
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
         # We divide by 0.01 (1%) to normalise the vega to a 1% change in the volatility input, per market convention.
         σ_shift = 0.01
-        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=ln_shift,
+        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=σB+σ_shift, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=ln_shift,
+        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=σB-σ_shift, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['vega'] = (results_σ_plus['price'] - results_σ_minus['price']) / (2 * (σ_shift / 0.01))
 
-- 
2.43.0


From defeaa1206dc5a496f75592cebdd33aca6b37d0e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 051/100] fix: greeks of a vector of options on one forward and
 expiry

---
 frm/pricing_engine/black76_bachelier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index c3e7533..9d23cad 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -75,6 +75,7 @@ def black76_price(
     assert len(shapes) in [1, 2]
     if len(shapes) == 2:
         assert (1,) in shapes
+    F, tau, cp, K, σB, ln_shift, annuity_factor = np.broadcast_arrays(F, tau, cp, K, σB, ln_shift, annuity_factor)
 
     F = F + ln_shift
     K = K + ln_shift
@@ -245,6 +246,7 @@ def bachelier_price(
     assert len(shapes) in [1, 2]
     if len(shapes) == 2:
         assert (1,) in shapes
+    F, tau, cp, K, σN, annuity_factor = np.broadcast_arrays(F, tau, cp, K, σN, annuity_factor)
 
     # Price per Bachelier formula
     d = (F - K) / (σN * np.sqrt(tau))
-- 
2.43.0


From 333e181dcc94057906396ba20860cd644f739f1b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 052/100] fix: implied volatility solvers must reprice

---
 frm/pricing_engine/black76_bachelier.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 9d23cad..8a71770 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -152,7 +152,7 @@ def black76_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-12 # the search is terminated based on the objective function tolerance
     obj_func_tol = 1e-5
     x0 = vol_sln_guess
     bounds = VOL_SLN_BOUNDS
@@ -175,8 +175,8 @@ def black76_solve_implied_vol(
             options = {'ftol': obj_func_tol, 'gtol': 0} # gtol set to 0, so optimisation is terminated based on ftol
             power = 2 # Use squared error for the optimisation
             res = minimize(fun=error_function, x0=np.atleast_1d(x0), bounds=[bounds], method='L-BFGS-B', options=options)
-            # 2nd condition required as we have overridden options to terminate based on ftol
-            if res.success or abs(res.fun) < obj_func_tol**power:
+            # The optimiser reports success when it stops on a flat section of the objective function
+            if abs(res.fun) < obj_func_tol**power:
                 return res.x[0]
             else:
                 raise ValueError('Optimisation to solve normal volatility did not converge.')
@@ -297,7 +297,7 @@ def bachelier_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-12 # the search is terminated based on the objective function tolerance
     obj_func_tol = 1e-5
     x0 = vol_n_guess
     bounds = VOL_N_BOUNDS
@@ -320,8 +320,8 @@ def bachelier_solve_implied_vol(
             options = {'ftol': obj_func_tol, 'gtol': 0} # gtol set to 0, so optimisation is terminated based on ftol
             power = 2 # Use squared error for the optimisation
             res = minimize(fun=error_function, x0=np.atleast_1d(x0), bounds=[bounds], method='L-BFGS-B', options=options)
-            # 2nd condition required as we have overridden options to terminate based on ftol
-            if res.success or abs(res.fun) < obj_func_tol**power:
+            # The optimiser reports success when it stops on a flat section of the objective function
+            if abs(res.fun) < obj_func_tol**power:
                 return res.x[0]
             else:
                 raise ValueError('Optimisation to solve normal volatility did not converge.')
-- 
2.43.0


From f265d7633aa79b9ec5a344888d4c39cb55b33d70 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 053/100] fix: conversions to shifted lognormal volatility must
 reprice

---
 frm/pricing_engine/black76_bachelier.py | 69 ++-----------------------
 1 file changed, 5 insertions(+), 64 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 8a71770..ad9179b 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -413,36 +413,8 @@ def shift_black76_vol(
 
     black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=from_ln_shift)['price'][0]
 
-    def obj_func_relative_px_error(vol_new_ln_shift):
-        # Return the square of the relative error (to the price, as we want invariance to the price) to be minimised.
-        # Squared error ensures differentiability which is critical for gradient-based optimisation methods.
-        return ((black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_new_ln_shift, ln_shift=to_ln_shift)['price'][0] - black76_px) / black76_px)**2
-
-    # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
-    # Hence set obj function tol 'ftol' to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    # We set gtol to zero, so that the optimisation is terminated based on ftol.
-    obj_func_tol = 1e-5 ** 2  # 0.001%^2
-    options = {'ftol': obj_func_tol, 'gtol': 0}
-    res = minimize(fun=obj_func_relative_px_error,
-                   x0=np.atleast_1d(vol_sln * (F / (F + (to_ln_shift - from_ln_shift)))),
-                   bounds=[VOL_SLN_BOUNDS],
-                   method='L-BFGS-B',
-                   options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
-        return res.x[0]
-    else:
-        # Further development could include:
-        # (i) fallback to other optimisation methods (e.g. 'trust-constr')
-        # (ii) addition of 'xtol' parameter into the optimisation (it is a parameter that is not available in 'L-BFGS-B')
-        #      'xtol' allows termination of the optimisation when the solved parameter (i.e. vol_sln) only changes by a small amount (e.g. 0.001%)
-        vol_new_ln_shift = res.x[0]
-        black76_px_shifted = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_new_ln_shift, ln_shift=to_ln_shift)['price'][0]
-        print({'F': F, 'tau': tau, 'K': K, 'vol_n': vol_sln, 'ln_shift': from_ln_shift})
-        print({'black76_px': black76_px, 'black76_px_shifted': black76_px_shifted, 'vol_new_ln_shift': vol_new_ln_shift,
-               'relative_error': obj_func_relative_px_error(vol_sln)})
-        print(res)
-        raise ValueError('Optimisation to shift Black76 volatility did not converge.')
+    # Price is monotonic in the volatility, hence the solve is bracketed (a squared error objective function is flat where the price is zero)
+    return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=to_ln_shift, X=black76_px, vol_sln_guess=vol_sln)
 
 
 def normal_vol_atm_to_black76_sln_atm(
@@ -463,42 +435,11 @@ def normal_vol_to_black76_sln(
     ) -> float:
     # If the forward and strike are equal, we use an analytical solution from equating the Black76 & Bachelier formulae
     if abs(F - K) < 1e-10:
-        normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
+        return normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
 
     # The solve is invariant to the risk-free rate or the call/put perspective.
     cp = 1
     bachelier_px = bachelier_price(F=F, tau=tau, K=K, cp=cp, vol_n=vol_n)['price'][0]
 
-    def obj_func_relative_px_error(vol_sln):
-        # Return the square of the relative error (to the price, as we want invariance to the price) to be minimised.
-        # Squared error ensures differentiability which is critical for gradient-based optimisation methods.
-        return ((bachelier_px - black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift)['price'][0]) / bachelier_px)**2
-
-    # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
-    # Hence set obj function tol 'ftol' to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    # We set gtol to zero, so that the optimisation is terminated based on ftol.
-    obj_func_tol = 1e-5 ** 2  # 0.001%^2
-    options = {'ftol': obj_func_tol, 'gtol': 0}
-    res = minimize(fun=obj_func_relative_px_error,
-                   x0=np.atleast_1d(vol_n / (F + ln_shift)),
-                   bounds=[VOL_SLN_BOUNDS],
-                   method='L-BFGS-B',
-                   options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
-        return res.x[0]
-    else:
-        # Further development could include:
-        # (i) fallback to other optimisation methods (e.g. 'trust-constr')
-        # (ii) addition of 'xtol' parameter into the optimisation (it is a parameter that is not available in 'L-BFGS-B')
-        #      'xtol' allows termination of the optimisation when solved parameter (i.e. vol_sln) only changes by a small amount (e.g. 0.001%)
-        vol_sln = res.x[0]
-        black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift)['price'][0]
-        print({'F': F, 'tau': tau, 'K': K, 'vol_n': vol_n, 'ln_shift': ln_shift})
-        print({'bachelier_px': bachelier_px, 'black76_px': black76_px, 'vol_sln': vol_sln,
-               'relative_error': obj_func_relative_px_error(vol_sln)})
-        print(res)
-        raise ValueError('Optimisation to convert normal volatility to log-normal volatility did not converge.')
-
-
-
+    # Price is monotonic in the volatility, hence the solve is bracketed (a squared error objective function is flat where the price is zero)
+    return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=ln_shift, X=bachelier_px)
-- 
2.43.0


From 0dcfe247f756e4bb0f602f2271e5b19d09069645 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 054/100] fix: forward volatility of scalars and of mixed
 expiries

---
 frm/pricing_engine/volatility_generic.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/frm/pricing_engine/volatility_generic.py b/frm/pricing_engine/volatility_generic.py
index 1c91c05..306e4af 100644
--- a/frm/pricing_engine/volatility_generic.py
+++ b/frm/pricing_engine/volatility_generic.py
@@ -35,12 +35,12 @@ def forward_volatility(t1: float | np.ndarray,
     - Negative values under the square root indicate inconsistent input volatilities and will raise an error.
     """
 
-    tau = t2 - t1
-    if np.any(tau == 0):
-        mask = tau == 0
-        warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {t1[mask]}, t2 {t2[mask]}")
-    elif np.any(tau < 0):
+    tau = np.subtract(t2, t1)
+    if np.any(tau < 0):
         raise ValueError("t2 is less than t1.")
+    if np.any(tau == 0):
+        warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {t1}, t2 {t2}")
+        tau = np.where(tau == 0, np.nan, tau)
 
     var_t1_t2 = (vol_t2 ** 2 * t2 - vol_t1 ** 2 * t1) / tau
     if np.any(var_t1_t2 < 0):
@@ -71,8 +71,11 @@ def flat_forward_interp(t1: float | np.ndarray,
     - If t is outside the range [t1, t2], the function will not compute interpolation and will use the input boundaries.
     - Assumes a flat forward interpolation model, where volatilities are averaged in a time-weighted manner.
     """
-    vol_t12 = np.zeros_like(vol_t1)
-    mask = (t1 != t2).flatten()
-    vol_t12[mask] = forward_volatility(t1[mask], vol_t1[mask], t2[mask], vol_t2[mask])
+    if np.ndim(t1) == 0 and np.ndim(t2) == 0:
+        vol_t12 = forward_volatility(t1, vol_t1, t2, vol_t2) if t1 != t2 else 0.0
+    else:
+        vol_t12 = np.zeros_like(vol_t1)
+        mask = (t1 != t2).flatten()
+        vol_t12[mask] = forward_volatility(t1[mask], vol_t1[mask], t2[mask], vol_t2[mask])
     return np.sqrt((vol_t1 ** 2 * t1 + vol_t12 ** 2 * (t - t1)) / t)
 
-- 
2.43.0


From c094f194d327a85c2dd0390f633db2e47c41c790 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 055/100] fix: antithetic variates for an odd number of
 simulations

---
 frm/pricing_engine/monte_carlo_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 004003c..ade4476 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -56,7 +56,9 @@ def generate_rand_nbs(nb_steps: int,
         rand_nbs = np.concatenate([rand_nbs_normal, rand_nbs_antithetic_variate], axis=2)
 
         # Reindex to pair normal with antithetic variates
-        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_pairs)).flatten()
+        nb_normal = nb_simulations - nb_pairs
+        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_normal)).flatten()
+        idx = np.append(idx, np.arange(nb_pairs, nb_normal)) # if nb_simulations is odd, the last simulation is unpaired
         rand_nbs = rand_nbs[:, :, idx]
     else:    
         rand_nbs = np.random.normal(0, 1, (nb_steps, nb_rand_vars, nb_simulations))
-- 
2.43.0


From fe24d3db905e0b0c6126d98f28d07024cf9d341e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 056/100] fix: covariance of correlated normal variates

---
 frm/pricing_engine/monte_carlo_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index ade4476..32b00df 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -79,7 +79,7 @@ def normal_corr(C: np.array,
     np.ndarray: Correlated pseudo random normal variates.
     """    
     
-    M = np.linalg.cholesky(C).T
+    M = np.linalg.cholesky(C) # lower triangular, M @ M.T == C
     return (M @ rand_nbs.T).T
 
 
-- 
2.43.0


From 6a20f02101778c407496943016a9aa3b99b98878 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 057/100] fix: geometric Brownian motion of several underlyings

---
 frm/pricing_engine/geometric_brownian_motion.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/geometric_brownian_motion.py b/frm/pricing_engine/geometric_brownian_motion.py
index 4676e87..bb8f20f 100644
--- a/frm/pricing_engine/geometric_brownian_motion.py
+++ b/frm/pricing_engine/geometric_brownian_motion.py
@@ -56,15 +56,15 @@ def simulate_gbm_path(initial_px: np.array,
     # if initial_px.ndim == 1:
     #     initial_px = initial_px.reshape(1, -1)
 
-    if drift.shape[0] == 1:
+    nb_timesteps = timestep_length.shape[0]
+    if drift.shape[0] == 1 and nb_timesteps > 1:
         drift = drift.reshape(-1, 1)
-    if forward_volatility.shape[0] == 1:
+    if forward_volatility.shape[0] == 1 and nb_timesteps > 1:
         forward_volatility = forward_volatility.reshape(-1, 1)
     if initial_px.shape[0] == 1:
         initial_px = initial_px.reshape(1, -1)
 
     # Shape checks
-    nb_timesteps = timestep_length.shape[0]
     assert nb_timesteps == drift.shape[0]
     assert nb_timesteps == forward_volatility.shape[0]
     assert nb_timesteps == rand_nbs.shape[0]
@@ -77,12 +77,14 @@ def simulate_gbm_path(initial_px: np.array,
 
     # Initialise shape and set initial value of underlying(s)
     x = np.zeros((rand_nbs.shape[0]+1, rand_nbs.shape[1], rand_nbs.shape[2]))
-    x[0, :, :] = initial_px
+    x[0, :, :] = initial_px.T
 
     # Simulate per geometric brownian motion process
     for i in range(0, nb_timesteps):
-        x[i+1, :, :] = x[i, :, :] * np.exp((drift[i, :] - 0.5 * (forward_volatility[i, :] ** 2)) *
-                                           timestep_length[i] + forward_volatility[i, :] * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
+        # Column vectors, so that each underlying's drift and volatility applies to all its simulations
+        mu, vol = drift[i, :, np.newaxis], forward_volatility[i, :, np.newaxis]
+        x[i+1, :, :] = x[i, :, :] * np.exp((mu - 0.5 * (vol ** 2)) *
+                                           timestep_length[i] + vol * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
 
     return x
 
-- 
2.43.0


From 869e5494a4b3a38551f3d1c70bbfc27997e7e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 058/100] fix: truncation range of the cosine method

---
 frm/pricing_engine/cosine_method_generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/cosine_method_generic.py b/frm/pricing_engine/cosine_method_generic.py
index 966d1ea..44c4bb9 100644
--- a/frm/pricing_engine/cosine_method_generic.py
+++ b/frm/pricing_engine/cosine_method_generic.py
@@ -120,11 +120,12 @@ def get_cos_truncation_range(model, L, model_param):
                         
         c1 = mu * tau + (1- np.exp(-1 * λ * tau)) * (u_bar - u0) / (2 * λ) - 0.5 * u_bar * tau
         
+        # Variance of ln(ST/K). [1] has (6 * exp(-λ * tau) - 7) in the fourth term, which understates the variance
         c2 = (1 / (8 * λ**3)) * (
             (η * tau * λ * np.exp(-λ * tau) * (u0 - u_bar) * (8 * λ * rho - 4 * η))
             + λ * rho * η * (1 - np.exp(-λ * tau)) * (16 * u_bar - 8 * u0)
             + 2 * u_bar * λ * tau * (-4 * λ * rho * η + η**2 + 4 * λ**2)
-            + η**2 * ((u_bar - 2 * u0) * np.exp(-2 * λ * tau) + u_bar * (6 * np.exp(-λ * tau) - 7) + 2 * u0)
+            + η**2 * ((u_bar - 2 * u0) * np.exp(-2 * λ * tau) + u_bar * (4 * np.exp(-λ * tau) - 5) + 2 * u0)
             + 8 * λ**2 * (u0 - u_bar) * (1 - np.exp(-λ * tau))
         )
                 
-- 
2.43.0


From 1bd3332bd3f7fc644e1c7a28b0d1a3bd5844f930 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 059/100] fix: Lewis-Lipton pricing of correlated Heston models

---
 frm/pricing_engine/heston.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 0f8580c..588b402 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -700,8 +700,8 @@ def heston_lipton_vanilla_european_integral(v, S0, tau, r, q, K, var0, vv, kappa
     zeta_term = v**2 * vv**2 * (1 - rho**2) + 2j * v * vv * rho * kappa_hat + kappa_hat**2 + vv**2 / 4
     zeta = np.sqrt(zeta_term)
 
-    psi_plus = - (1j * kappa * rho * vv + kappa_hat) + zeta
-    psi_minus = (1j * kappa * rho * vv + kappa_hat) + zeta
+    psi_plus = - (1j * v * rho * vv + kappa_hat) + zeta
+    psi_minus = (1j * v * rho * vv + kappa_hat) + zeta
 
     numerator = psi_minus + psi_plus * np.exp(-zeta * tau)
     denominator = 2 * zeta
-- 
2.43.0


From 4884475ddf8f708c7e62933869a567dee8263f56 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 060/100] fix: cosine method without put-call parity

---
 frm/pricing_engine/heston.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 588b402..ac35e11 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -645,8 +645,10 @@ def heston_cosine_price_vanilla_european(S0, tau, r, q, cp, K, var0, vv, kappa,
         if (cp == -1).any():
             put_px = K * np.multiply(Fk, Uk_put).sum(axis=0) * np.exp(-r * tau)
 
-    result[cp == 1] = call_px[cp == 1]
-    result[cp == -1] = put_px[cp == -1]
+    if (cp == 1).any():
+        result[cp == 1] = call_px[cp == 1]
+    if (cp == -1).any():
+        result[cp == -1] = put_px[cp == -1]
 
     return result
 
-- 
2.43.0


From 9352206d8c58ec5bf568469b89c4972cae2f52a0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 061/100] fix: default lognormal shift of the SABR smile fit

---
 frm/pricing_engine/sabr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index f084f74..3fd219e 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -190,7 +190,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
                                  F: float,
                                  K: NDArray[float],
                                  vols_sln: NDArray[float],
-                                 ln_shift: float=None,
+                                 ln_shift: float=0.0,
                                  beta_overide: Optional[float]=None)-> tuple:
     """
     Calibrates SABR parameters to a volatility smile of European option prices using the Hagan 2002 (lognormal) SABR model and the Black76 formula.
-- 
2.43.0


From dd08df4afae5f656fc8fac42995f26a071ba513a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 062/100] fix: bounds of a fitted SABR beta

---
 frm/pricing_engine/sabr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index 3fd219e..5b01b5e 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -245,7 +245,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
     # rho has a valid range of -1≤ρ≤1
     # volvol has a valid range of 0<v≤∞
     x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(-1.0, 1.0), (-1.0, 1.0), (0.0001, None)]
+    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0), (0.0001, None)]
     res = scipy.optimize.minimize(fun=lambda param: vol_sse(param), x0=x0, bounds=bounds)
 
     if res.success:
-- 
2.43.0


From 74f1d9f3497a69c88eb862e404c622e4b951491d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:55:59 +0000
Subject: [PATCH 063/100] fix: SABR smile fit crossing parameters where the
 model is undefined

---
 frm/pricing_engine/sabr.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index 5b01b5e..56fe073 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -229,9 +229,13 @@ def fit_sabr_params_to_sln_smile(tau: float,
             rho_, volvol_ = param
             beta_ = beta_overide
 
-        alpha_ = solve_alpha_from_sln_vol(tau=tau, F=F, beta=beta_, rho=rho_, volvol=volvol_, vol_sln_atm=vol_sln_atm, ln_shift=ln_shift)
+        try:
+            alpha_ = solve_alpha_from_sln_vol(tau=tau, F=F, beta=beta_, rho=rho_, volvol=volvol_, vol_sln_atm=vol_sln_atm, ln_shift=ln_shift)
+        except ValueError:
+            return 1e6 # No alpha is consistent with the ATM volatility for these parameters
         sabr_vols = calc_sln_vol_for_strike_from_sabr_params(tau=tau, F=F, alpha=alpha_, beta=beta_, rho=rho_, volvol=volvol_ ,K=K, ln_shift=ln_shift)
-        return sum((vols_sln - sabr_vols) ** 2)
+        sse = sum((vols_sln - sabr_vols) ** 2)
+        return sse if np.isfinite(sse) else 1e6 # The formula is undefined at e.g. rho = +-1
 
     # ATM volatility check
     vol_sln_atm = vols_sln[np.isclose(K, F)]
-- 
2.43.0


From 20e2243b420dc290e9104eba496f675f91187f66 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:55:59 +0000
Subject: [PATCH 064/100] fix: termination tolerances of the SABR smile fit

---
 frm/pricing_engine/sabr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index 56fe073..5cc68ff 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -250,7 +250,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
     # volvol has a valid range of 0<v≤∞
     x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
     bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0), (0.0001, None)]
-    res = scipy.optimize.minimize(fun=lambda param: vol_sse(param), x0=x0, bounds=bounds)
+    res = scipy.optimize.minimize(fun=lambda param: vol_sse(param), x0=x0, bounds=bounds, options={'ftol': 1e-12, 'gtol': 1e-9})
 
     if res.success:
         beta, rho, volvol = (beta_overide, *res.x) if beta_overide is not None else res.x
-- 
2.43.0


From 71ef1109ef6af5ded2d34ee95bdb9aba0b2de1fe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 065/100] fix: leave the caller's volatility quotes unchanged

---
 frm/term_structures/fx_volatility_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/fx_volatility_surface.py b/frm/term_structures/fx_volatility_surface.py
index 970ba78..94f5bc5 100644
--- a/frm/term_structures/fx_volatility_surface.py
+++ b/frm/term_structures/fx_volatility_surface.py
@@ -90,7 +90,7 @@ class FXVolatilitySurface:
         self.fx_spot_rate = self.fx_forward_curve_df.loc[mask, 'fx_forward_rate'].values[0]
 
         # Process volatility input and setup pillar dataframe and daily helper dataframe
-        vol_quotes = clean_vol_quotes_column_names(vol_quotes)
+        vol_quotes = clean_vol_quotes_column_names(vol_quotes.copy())
         vol_quotes_call_put = solve_call_put_quotes_from_strategy_quotes(vol_quotes)
         delta_smile_quote_details = get_delta_smile_quote_details(vol_quotes_call_put)
         self.quotes_column_names = np.array(delta_smile_quote_details['quotes_column_names'].to_list())
-- 
2.43.0


From 6370ff192fd6fe325e44b69b1b2d8712f3ef2833 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 066/100] fix: unconventional delta conventions of quotes given
 by date

---
 frm/term_structures/fx_helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index e6a7bfa..7b93e93 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -108,12 +108,14 @@ def validate_ccy_pair(ccy_pair):
 
 def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
+    # Quotes may be given by expiry or delivery date instead of tenor
+    term_column = next((column for column in ['tenor', 'expiry_date', 'delivery_date'] if column in df.columns), 'delta_convention')
     bool_cond = np.logical_and(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd'],
                                df['delta_convention'].str.contains('premium_adjusted'))
     df.loc[bool_cond, 'warnings'] += 'the regular delta is the market delta_convention for this currency pair\n'
     if bool_cond.any():
         warnings.warn('The delta_convention is premium_adjusted for the following tenors: '
-                      f'{df.loc[bool_cond, "tenor"].unique()} for the currency pair {ccy_pair}. '
+                      f'{df.loc[bool_cond, term_column].unique()} for the currency pair {ccy_pair}. '
                       'The market convention is to use the regular delta. '
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
@@ -126,7 +128,7 @@ def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
     if bool_cond.any():
         warnings.warn('The delta_convention is regular for the following tenors: '
-                      f'{df.loc[bool_cond, "tenor"].unique()} for the currency pair {ccy_pair}. '
+                      f'{df.loc[bool_cond, term_column].unique()} for the currency pair {ccy_pair}. '
                       'The market convention is to use the premium adjusted delta. '
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
-- 
2.43.0


From 7a4221f706032e222bbfeb2e47143c400cbe3bda Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 067/100] fix: non-negative final variance of the Euler Heston
 simulations

---
 frm/pricing_engine/heston.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index ac35e11..0306a39 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -812,14 +812,15 @@ def heston_simulate_scalar(
     elif method[:5] == 'euler':
         x[0, :] = [S0, var0]
         for i in range(1, nb_timesteps + 1):
-            if method == 'euler_with_absorption_of_volatility_process':
-                x[i - 1, 1] = max(x[i - 1, 1], 0)
-            elif method == 'euler_with_reflection_of_volatility_process':
-                x[i - 1, 1] = abs(x[i - 1, 1])
-
             x[i, 1] = x[i - 1, 1] + kappa * (theta - x[i - 1, 1]) * dt + vv * np.sqrt(x[i - 1, 1]) * u[i - 1, 1]
             x[i, 0] = x[i - 1, 0] + x[i - 1, 0] * (mu * dt + np.sqrt(x[i - 1, 1]) * u[i - 1, 0])
 
+            # Applied to every simulated variance, the final one included
+            if method == 'euler_with_absorption_of_volatility_process':
+                x[i, 1] = max(x[i, 1], 0)
+            elif method == 'euler_with_reflection_of_volatility_process':
+                x[i, 1] = abs(x[i, 1])
+
     return x
 
 
@@ -933,16 +934,17 @@ def heston_simulate(
         x[0, 1, :] = var0
 
         for i in range(1, nb_timesteps + 1):
-            if method == 'euler_with_absorption_of_volatility_process':
-                x[i - 1, 1, :] = np.maximum(0, x[i - 1, 1, :])
-            elif method == 'euler_with_reflection_of_volatility_process':
-                x[i - 1, 1, :] = np.abs(x[i - 1, 1, :])
-
             x[i, 1, :] = x[i - 1, 1, :] \
                          + kappa * (theta - x[i - 1, 1, :]) * dt + vv * np.sqrt(x[i - 1, 1, :]) * u[i - 1, 1, :]
             x[i, 0, :] = x[i - 1, 0, :] \
                          + x[i - 1, 0, :] * (mu * dt + np.sqrt(x[i - 1, 1, :]) * u[i - 1, 0, :])
 
+            # Applied to every simulated variance, the final one included
+            if method == 'euler_with_absorption_of_volatility_process':
+                x[i, 1, :] = np.maximum(0, x[i, 1, :])
+            elif method == 'euler_with_reflection_of_volatility_process':
+                x[i, 1, :] = np.abs(x[i, 1, :])
+
     return x
 
 
-- 
2.43.0


From b666d1d2083103eed5af11a87d7324f2e6513f8f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 068/100] fix: reject unknown Heston simulation methods

---
 frm/pricing_engine/heston.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 0306a39..e1e12a4 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -23,6 +23,12 @@ VALID_HESTON_PRICING_METHODS = [
     'heston_lipton'
 ]
 
+VALID_HESTON_SIMULATION_METHODS = [
+    'quadratic_exponential',
+    'euler_with_absorption_of_volatility_process',
+    'euler_with_reflection_of_volatility_process'
+]
+
 def heston_price_vanilla_european(S0, tau, r, q, cp, K, var0, vv, kappa, theta, rho, lambda_, pricing_method):
     match pricing_method:
         case 'heston_cosine':
@@ -769,6 +775,8 @@ def heston_simulate_scalar(
     [1] Janek, A., Kluge, T., Weron, R., Wystup, U. (2010). "FX smile in the Heston model".
     """
 
+    if method not in VALID_HESTON_SIMULATION_METHODS:
+        raise ValueError(f"'method' is invalid: {method}")
     assert rand_nbs.shape[1] == 2
     nb_timesteps = rand_nbs.shape[0]
     dt = tau / nb_timesteps
@@ -876,6 +884,8 @@ def heston_simulate(
     [1] Janek, A., Kluge, T., Weron, R., Wystup, U. (2010). "FX smile in the Heston model".
      """
 
+    if method not in VALID_HESTON_SIMULATION_METHODS:
+        raise ValueError(f"'method' is invalid: {method}")
     assert rand_nbs.shape[1] == 2
     nb_timesteps = rand_nbs.shape[0]
     dt = tau / nb_timesteps
-- 
2.43.0


From a58c8514efa25c2357ed6631c9652470e820a571 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 069/100] fix: zero-coupon bond option arguments named as its
 callers name them

---
 frm/pricing_engine/hw1f.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index cd606b5..38f7152 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -305,8 +305,8 @@ class HullWhite1Factor:
 
 
     def price_zero_coupon_bond_option(self,
-                                      option_expiry: float,
-                                      bond_maturity: float,
+                                      expiry_years: float,
+                                      maturity_years: float,
                                       K: float,
                                       cp: int,
                                       t0: float=0):
@@ -314,9 +314,9 @@ class HullWhite1Factor:
         Price (at time t) a European option on a zero-coupon bond using the Hull-White model.
 
         Parameters:
-        T : float
+        expiry_years : float
             expiry (in years) of the option, and the start of the underlying zero-coupon bond.
-        S : float
+        maturity_years : float
             Maturity (in years) of the underlying zero-coupon bond.
         K : float
             Strike price of the bond option.
@@ -336,8 +336,8 @@ class HullWhite1Factor:
 
         σ = self.vol
         α = self.mean_rev_lvl
-        T = np.atleast_1d(option_expiry) # Aligning to the notation in [1]
-        S = np.atleast_1d(bond_maturity) # Aligning to the notation in [1]
+        T = np.atleast_1d(expiry_years) # Aligning to the notation in [1]
+        S = np.atleast_1d(maturity_years) # Aligning to the notation in [1]
         K = np.atleast_1d(K)
         cp = np.atleast_1d(cp)
 
@@ -368,7 +368,7 @@ class HullWhite1Factor:
             price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
-        price[bond_maturity < option_expiry] = 0.0
+        price[maturity_years < expiry_years] = 0.0
 
         return price
 
-- 
2.43.0


From 756accd7d5e81002297edfb19579adc923f9fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 070/100] fix: Hull-White drift fitted to the zero curve

---
 frm/pricing_engine/hw1f.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 38f7152..229b92c 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -135,14 +135,9 @@ class HullWhite1Factor:
         f_t_minus_dt = self.zero_curve.get_instantaneous_forward_rate(years=years-self.dt)
         df_dt = (f_t_plus_dt - f_t_minus_dt) / (2 * self.dt)
 
-        if True:
-            f_t = np.full_like(years, self.r0)
-            return α * f_t + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
-        else:
-
-            return df_dt \
-                   + α * f_t \
-                   + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
+        return df_dt \
+               + α * f_t \
+               + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
 
 
     def get_forward_rate_by_integration(self,t, T):
-- 
2.43.0


From 2e7b0aec8bef460b57aab5bc56386b5189148d35 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 071/100] fix: zero-coupon bond options with any mix of scalars
 and vectors

---
 frm/pricing_engine/hw1f.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 229b92c..d8486d9 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -338,6 +338,7 @@ class HullWhite1Factor:
 
         max_dim = np.maximum.reduce([x.size for x in [T, S, K, cp]])
         assert all((x.size == 1) or (x.size == max_dim) for x in [T, S, K, cp]), "Arrays must be of size 1 or match maximum dimension"
+        T, S, K, cp = np.broadcast_arrays(T, S, K, cp)
 
         if not np.all(S > T):
             warnings.warn("Bond maturities should be after the bond option expiries")
@@ -363,7 +364,7 @@ class HullWhite1Factor:
             price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
-        price[maturity_years < expiry_years] = 0.0
+        price[S < T] = 0.0
 
         return price
 
-- 
2.43.0


From 691b5343ac621586758b7f4d007dc7f286d4cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 072/100] fix: discount the intrinsic value of zero-coupon bond
 options

---
 frm/pricing_engine/hw1f.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index d8486d9..ca0a84e 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -360,8 +360,7 @@ class HullWhite1Factor:
 
         # Handle zero variance case (set to intrinsic value)
         if np.any(zero_σ_mask):
-            F = P_t_S / P_t_T # forward bond price
-            price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
+            price[zero_σ_mask] = np.maximum(cp * (P_t_S - K * P_t_T), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
         price[S < T] = 0.0
-- 
2.43.0


From 11d0a1fb618a3ccb07c871f1b787ccab2f9ee951 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 073/100] fix: error of the theta fit excludes the pillar at
 t=0

---
 frm/pricing_engine/hw1f.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index ca0a84e..32d3a6e 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -77,8 +77,9 @@ class HullWhite1Factor:
 
     def calc_error_for_theta_fit(self, print_results=False):
         """Calculate the basis point error between the pillar zero rates and the theta fit."""
-        years_pillars = self.zero_curve.pillar_df['years'].values
-        cczr_pillars = self.zero_curve.pillar_df['cczr'].values
+        mask = self.zero_curve.pillar_df['years'].values > 0 # the discount factor at t=0 has no zero rate
+        years_pillars = self.zero_curve.pillar_df['years'].values[mask]
+        cczr_pillars = self.zero_curve.pillar_df['cczr'].values[mask]
 
         cczr_recalcs = np.array([-1*np.log(self.calc_discount_factor_by_solving_ode_1(0, yr))/yr for yr in years_pillars])
         diff_bps = 1e4 * (cczr_pillars - cczr_recalcs)
-- 
2.43.0


From 0371157d387de85b0dd0b84d8fb6d7628c239a38 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 074/100] fix: swaptions whose notional is paid with the last
 coupon

---
 frm/pricing_engine/hw1f.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 32d3a6e..c81a65c 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -626,7 +626,7 @@ class HullWhite1Factor:
         if not all(x < y for x, y in zip(coupon_payment_times[:-1], coupon_payment_times[1:])):
             raise ValueError("coupon_payment_times must be strictly increasing")
 
-        if notional_payment_time < coupon_payment_times[-2]:
+        if len(coupon_payment_times) > 1 and notional_payment_time < coupon_payment_times[-2]:
             raise ValueError("notional_payment_time must not be earlier than the 2nd to last coupon payment")
 
         # Find critical rate r* (x* in paper) by solving _zero_function(r*) = 0
@@ -689,7 +689,8 @@ class HullWhite1Factor:
         )
 
         # Determine strikes and coefficients for each component bond option
-        coupon_strikes = critical_bond_prices[:-1]
+        # (the last strike is both the last coupon's and the notional's if these are paid at the same time)
+        coupon_strikes = critical_bond_prices[:len(coupon_payment_times)]
         notional_strike = critical_bond_prices[-1]
 
         # For a payer swaption:
-- 
2.43.0


From 7b967f0c4b01a4356182a8467b2e96c2b4b06c4f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 075/100] fix: Hull-White without mean reversion

---
 frm/pricing_engine/hw1f.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index c81a65c..eb6b5fa 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -138,7 +138,7 @@ class HullWhite1Factor:
 
         return df_dt \
                + α * f_t \
-               + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
+               + σ**2 * self.calc_variance_factor(years)
 
 
     def get_forward_rate_by_integration(self,t, T):
@@ -258,7 +258,7 @@ class HullWhite1Factor:
                 # conditional_mean = 0.01
 
                 # Conditional variance
-                conditional_var = (σ ** 2 / (2 * α)) * (1 - np.exp(-2 * α * Δt))
+                conditional_var = σ ** 2 * self.calc_variance_factor(Δt)
 
                 # Generate next value
                 R[i + 1, :] = conditional_mean + np.sqrt(conditional_var) * rand_nbs[i, :, :]
@@ -351,7 +351,7 @@ class HullWhite1Factor:
             raise ValueError('Need to assess if different functionality (i.e. calc_discount_factor_by_solving_ode_1/2) needed for P_t_T and P_t_S when t>0')
 
         # Calculate bond price volatility between T and S
-        σP = σ * np.sqrt((1 - np.exp(-2 * α * (T-t0))) / (2 * α)) * self.calc_b(t1=T, t2=S)
+        σP = σ * np.sqrt(self.calc_variance_factor(T-t0)) * self.calc_b(t1=T, t2=S)
 
         zero_σ_mask = σP <= 0.0
         h = (1/σP) * np.log(P_t_S / (K * P_t_T)) + 0.5 * σP
@@ -433,6 +433,16 @@ class HullWhite1Factor:
             return (1/α) *(1-np.exp(-α*(t2- t1)))
 
 
+    def calc_variance_factor(self, t):
+        """Variance at time t of the short rate per unit σ², (1-exp(-2αt))/(2α). The limit as α → 0 is t."""
+        α = self.mean_rev_lvl
+
+        if α < 1e-8:
+            return t
+        else:
+            return (1 - np.exp(-2 * α * t)) / (2 * α)
+
+
     def calc_discount_factor_by_solving_ode_1(self, t1, t2, r_t1=None):
         """
         Calculates the discount factor (i.e. the zero coupon bond price), for the ODE:
@@ -509,7 +519,7 @@ class HullWhite1Factor:
 
             return (df_T / df_t) \
                 * np.exp(
-                    B_t_T * f_t - (σ ** 2 / (4 * α)) * (1 - np.exp(-2 * α * t1)) * B_t_T ** 2
+                    B_t_T * f_t - 0.5 * σ ** 2 * self.calc_variance_factor(t1) * B_t_T ** 2
                 )
 
         assert t2 > t1, 't2 must be greater than t1'
-- 
2.43.0


From a63b96d32829de0a35dca893eca53ac7b08081b8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 076/100] fix: swaption coupons weighted by their own year
 fractions

---
 frm/pricing_engine/hw1f.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index eb6b5fa..5e7a4a1 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -718,7 +718,7 @@ class HullWhite1Factor:
                 maturity_years=payment_time,
                 K=strike,
                 cp=cp
-            ) for payment_time, strike in zip(coupon_payment_times, coupon_strikes)
+            )[0] for payment_time, strike in zip(coupon_payment_times, coupon_strikes)
         ])
 
         # Price the bond option for notional payment
@@ -727,7 +727,7 @@ class HullWhite1Factor:
             maturity_years=notional_payment_time,
             K=notional_strike,
             cp=cp
-        )
+        )[0]
 
         # Sum up the components with their coefficients:
         # 1. Coupon payments: multiply by fixed_rate * year_fraction
-- 
2.43.0


From c6b6bc073e9bf91d6cc38371abbd685edc8b4626 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 077/100] fix: reject unknown Hull-White simulation methods

---
 frm/pricing_engine/hw1f.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 5e7a4a1..2c97cad 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -263,6 +263,9 @@ class HullWhite1Factor:
                 # Generate next value
                 R[i + 1, :] = conditional_mean + np.sqrt(conditional_var) * rand_nbs[i, :, :]
 
+        else:
+            raise ValueError(f"Invalid simulation method: {method}")
+
         # We integrate R over each simulation path, and calculate the cumulative path discount factor from t=0 to t=t.
         # The integration is optimised by being is vectorised and 'cumulative'.
         # By cumulative, we only calculate a periods integration once, and store it for future uses.
-- 
2.43.0


From 27b5b68fd90ffc9365a3dde3dcee6f2fbe4ad6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 078/100] fix: optionlet schedule with payment dates and year
 fractions

---
 frm/term_structures/optionlet.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 7121f2e..b166592 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -105,11 +105,13 @@ class Optionlet:
         self.quote_cols = list(quote_str_map.keys())
     
         nb_quotes = len(self.quote_vol_sln) - 1
-        self.term_structure = make_schedule(start_date=self.quote_vol_sln.loc[nb_quotes, 'effective_date'],
-                                           end_date=self.quote_vol_sln.loc[nb_quotes, 'termination_date'],
-                                           freq=self.optionlet_freq,
-                                           cal=self.cal)
-        self.term_structure.add_period_yearfrac(day_count_basis=self.day_count_basis)
+        schedule = BaseSchedule(start_date=self.quote_vol_sln.loc[nb_quotes, 'effective_date'],
+                                end_date=self.quote_vol_sln.loc[nb_quotes, 'termination_date'],
+                                freq=self.optionlet_freq,
+                                cal=self.busdaycal)
+        schedule.add_payment_dates()
+        schedule.add_period_yearfrac(day_count_basis=self.day_count_basis)
+        self.term_structure = schedule.df
 
         self.term_structure['discount_factors'] = self.zero_curve.get_discount_factors(dates=self.term_structure['payment_date'])
         self.term_structure['annuity_factor'] = self.term_structure['period_yearfrac'] * self.term_structure['discount_factors']
-- 
2.43.0


From cd3b64fad0bdcba501185bd3e8dcecf929d46851 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 079/100] fix: optionlet SABR beta between 0 and 1

---
 frm/term_structures/optionlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index b166592..3372009 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -484,7 +484,7 @@ class Optionlet:
         # rho has a valid range of -1≤ρ≤1
         # volvol has a valid range of 0<v≤∞
         x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-        bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(-1.0, 1.0), (-1.0, 1.0),(0.0001, None)]
+        bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0),(0.0001, None)]
         res = scipy.optimize.minimize(fun=lambda param: sse_sabr_for_pillar_optionlet(self=self, param=param),
                                       x0=x0,
                                       bounds=bounds,
-- 
2.43.0


From 198c7ce8a0cfb2b627ce1a09288fb7c1163be456 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 080/100] fix: optionlet schedule whose period ends are the
 quotes' termination dates

---
 frm/term_structures/optionlet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 3372009..70afb77 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -13,7 +13,7 @@ import numbers
 from frm.pricing_engine.black76_bachelier import black76_price, bachelier_price, black76_solve_implied_vol, bachelier_solve_implied_vol, normal_vol_to_black76_sln, black76_sln_to_normal_vol, black76_sln_to_normal_vol_analytical, normal_vol_atm_to_black76_sln_atm, VOL_N_BOUNDS
 from frm.pricing_engine.sabr import solve_alpha_from_sln_vol, calc_sln_vol_for_strike_from_sabr_params
 from frm.utils import year_frac, clean_tenor, tenor_to_date_offset, convert_column_to_consistent_data_type, BaseSchedule, make_schedule
-from frm.enums import DayCountBasis, PeriodFreq, TermRate
+from frm.enums import DayCountBasis, PeriodFreq, RollConv, TermRate
 from frm.term_structures.zero_curve import ZeroCurve
 from frm.term_structures.interest_rate_option_helpers import standardise_relative_quote_col_names
 
@@ -105,9 +105,12 @@ class Optionlet:
         self.quote_cols = list(quote_str_map.keys())
     
         nb_quotes = len(self.quote_vol_sln) - 1
-        schedule = BaseSchedule(start_date=self.quote_vol_sln.loc[nb_quotes, 'effective_date'],
-                                end_date=self.quote_vol_sln.loc[nb_quotes, 'termination_date'],
+        # Rolled from the unadjusted dates (as are the quotes' dates), so that every quote terminates on a period end
+        schedule = BaseSchedule(start_date=self.settlement_date + self.optionlet_freq.date_offset,
+                                end_date=self.settlement_date + tenor_to_date_offset(self.quote_vol_sln.loc[nb_quotes, 'tenor']),
                                 freq=self.optionlet_freq,
+                                roll_conv=RollConv.FOLLOWING,
+                                roll_user_specified_dates=True,
                                 cal=self.busdaycal)
         schedule.add_payment_dates()
         schedule.add_period_yearfrac(day_count_basis=self.day_count_basis)
-- 
2.43.0


From 3130fee31d7dbc70380216544f50b24739512b1e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 081/100] fix: names of basis-point quotes not truncated

---
 frm/term_structures/interest_rate_option_helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index c8d0fb2..d7c2146 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -167,13 +167,13 @@ def standardise_relative_quote_col_names(col_names: list[str]):
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 100)) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 100))) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
@@ -189,13 +189,13 @@ def standardise_absolute_quote_col_names(col_names: list[str]):
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 100)) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 100))) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
-- 
2.43.0


From c057e567fdb17b4092f5ad8620853cc65bf122f9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 082/100] fix: percentage quotes named in basis points

---
 frm/term_structures/interest_rate_option_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index d7c2146..899a463 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -173,7 +173,7 @@ def standardise_relative_quote_col_names(col_names: list[str]):
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(round(v * 100))) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
@@ -195,7 +195,7 @@ def standardise_absolute_quote_col_names(col_names: list[str]):
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(round(v * 100))) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
-- 
2.43.0


From 7af8f88007370ba11de6312d57accf209bb2eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 083/100] fix: basis-point quotes in upper case

---
 frm/term_structures/interest_rate_option_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index 899a463..ff1b547 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -166,7 +166,7 @@ def standardise_relative_quote_col_names(col_names: list[str]):
     # Relative Quotes
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
-            v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
+            v = round(float(col_name.lower().replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
             new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
@@ -188,7 +188,7 @@ def standardise_absolute_quote_col_names(col_names: list[str]):
 
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
-            v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
+            v = round(float(col_name.lower().replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
             new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
-- 
2.43.0


From f8e2c462034cb97570090ff65bc7f302084c9889 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 084/100] fix: first cap/floor quote of a single optionlet

---
 frm/term_structures/optionlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 70afb77..a2dd49f 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -320,7 +320,7 @@ class Optionlet:
                 F=optionlets.loc[N,'F'],
                 tau=optionlets.loc[N,'expiry_years'],
                 K=self.quote_strikes.loc[quote_nb, 'atmf'],
-                vol_sln=vol_sln[-1],
+                vol_sln=np.atleast_1d(vol_sln)[-1],
                 ln_shift=self.ln_shift)
 
             # The target of the numerical solve is (a) - (bi)
-- 
2.43.0


From 14c99b803e047b1243c6d761deeb149922b97d5e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 085/100] fix: optionlet SABR correlations inside of +/-1

---
 frm/term_structures/optionlet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index a2dd49f..e0b50ce 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -487,7 +487,9 @@ class Optionlet:
         # rho has a valid range of -1≤ρ≤1
         # volvol has a valid range of 0<v≤∞
         x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-        bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0),(0.0001, None)]
+        # The SABR formula is 0/0 for rho = +/-1, hence the optimiser is kept inside of the bounds
+        rho_bounds = (-0.9999, 0.9999)
+        bounds = [rho_bounds, (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), rho_bounds, (0.0001, None)]
         res = scipy.optimize.minimize(fun=lambda param: sse_sabr_for_pillar_optionlet(self=self, param=param),
                                       x0=x0,
                                       bounds=bounds,
-- 
2.43.0


From e0383488c684170dfa5ffd82633d4751eee1d65c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 086/100] fix: convergence of the normal volatilities of
 cap/floor quotes

---
 frm/term_structures/optionlet.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index e0b50ce..51d5012 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -187,8 +187,10 @@ class Optionlet:
         self.quote_vol_n = self.quote_vol_sln.copy()
         self.quote_vol_n[self.quote_cols] = np.nan
 
-        def obj_func_relative_px_error(vol_n):
+        def obj_func_relative_px_error(vol_n_scale):
             """Helper function for solving the equivalent normal (bachelier) volatility for a cap/floor quote"""
+            # Solved relative to the guess, the finite difference steps of the optimiser are too coarse for the volatility
+            vol_n = vol_n_scale * x0
             bachelier_optionlet_pxs = bachelier_price(F=F, tau=tau, cp=cp, K=K, vol_n=vol_n.item(), annuity_factor=annuity_factor)['price']
             # Return the square of the relative error (to the price, as we want invariance to the price) to be minimised.
             # Squared error ensures differentiability which is critical for gradient-based optimisation methods.
@@ -220,14 +222,14 @@ class Optionlet:
 
                 res = scipy.optimize.minimize(
                     fun=obj_func_relative_px_error,
-                    x0=x0,
-                    bounds=[(x0*0.8, x0*1.25)],
+                    x0=np.ones(1),
+                    bounds=[(0.8, 1.25)],
                     method='L-BFGS-B',
                     options=options)
 
                 # 2nd condition required as we have overridden options to terminate based on ftol
                 if res.success or abs(res.fun) < obj_func_tol:
-                    self.quote_vol_n.loc[quote_nb, quote_col] = res.x.item()
+                    self.quote_vol_n.loc[quote_nb, quote_col] = (res.x * x0).item()
                 else:
                     print(res)
                     raise ValueError('Optimisation of lognormal volatility quotes, normal volatility equivalent, failed to converge')
-- 
2.43.0


From 9d4f38907fa83dcd8252fddf2f8478c6b33e2852 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 087/100] fix: leave the caller's cap/floor quotes unchanged

---
 frm/term_structures/optionlet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 51d5012..f0cd699 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -48,6 +48,7 @@ class Optionlet:
     def __post_init__(self):
 
         self.day_count_basis = self.zero_curve.day_count_basis
+        self.quote_vol_sln = self.quote_vol_sln.copy() # The quotes are the caller's
 
         # Identical for Cap/Floor and IRS bootstrapping
         if self.settlement_date is None and self.settlement_delay is None:
-- 
2.43.0


From e912e57fbe780721941913d96da037347bbf315d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 088/100] fix: optionlet SABR fit survives parameters without
 an alpha

---
 frm/term_structures/optionlet.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index f0cd699..58169f9 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -430,7 +430,10 @@ class Optionlet:
                 volvol = np.interp(x, X,[self.term_structure.loc[prior_pillar_idx, 'volvol'], volvol_pillar])
 
             for idx, (i, row) in enumerate(self.term_structure.loc[mask_current, :].iterrows()):
-                alpha = solve_alpha_from_sln_vol(tau=row['expiry_years'], F=row['F'], beta=beta[idx], rho=rho[idx], volvol=volvol[idx], vol_sln_atm=row['vol_sln_atm'],ln_shift=self.ln_shift)
+                try:
+                    alpha = solve_alpha_from_sln_vol(tau=row['expiry_years'], F=row['F'], beta=beta[idx], rho=rho[idx], volvol=volvol[idx], vol_sln_atm=row['vol_sln_atm'],ln_shift=self.ln_shift)
+                except ValueError:
+                    return 1e6 # No alpha is consistent with the ATM volatility for these parameters
                 vols_sln = calc_sln_vol_for_strike_from_sabr_params(tau=row['expiry_years'], F=row['F'], alpha=alpha, beta=beta[idx], rho=rho[idx], volvol=volvol[idx], K=K, ln_shift=self.ln_shift)
 
                 optionlet_pxs[idx, :] = black76_price(
@@ -442,7 +445,8 @@ class Optionlet:
                     ln_shift=self.ln_shift)['price'] * row['annuity_factor']
 
             relative_error_of_pxs = (target - optionlet_pxs.sum(axis=0)) / target
-            return sum((relative_error_of_pxs ** 2) / len(relative_error_of_pxs))
+            sse = sum((relative_error_of_pxs ** 2) / len(relative_error_of_pxs))
+            return sse if np.isfinite(sse) else 1e6
 
         mask_prior = self.term_structure['quote_nb'] < quote_nb
         mask_current = self.term_structure['quote_nb'] == quote_nb
-- 
2.43.0


From 131d9962aae26c9c223a4da63e8e1803d6f06739 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 089/100] fix: swap legs can be imported

---
 frm/instruments/leg.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1e220c1..1e86bd2 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -12,7 +12,6 @@ from frm.term_structures.swap_curve import TermSwapCurve, RFRSwapCurve
 from frm.utils import CouponSchedule, year_frac, MarketDataNotAvailableError
 from frm.enums import CompoundingFreq, TermRate, RFRFixingCalcMethod, DayCountBasis, PayRcv
 from frm.term_structures.zero_curve import ZeroCurve
-from frm.term_structures.zero_curve_helpers import discount_factor_from_zero_rate
 from scipy.optimize import root_scalar
 
 
@@ -393,10 +392,9 @@ class ZerocouponLeg(Leg):
     def calc_coupon_payment(self, coupon_override=None):
         if coupon_override is not None:
             self.schedule.df['zero_rate'] = coupon_override
-        multiplier = (1.0 / discount_factor_from_zero_rate(
+        multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=self.schedule.df['period_yearfrac'],
-            zero_rate=self.schedule.df['zero_rate'],
-            compounding_freq=self.compounding_freq)) - 1.0
+            zero_rate=self.schedule.df['zero_rate'])) - 1.0
         self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
@@ -408,10 +406,9 @@ class ZerocouponLeg(Leg):
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE,
                                          day_count_basis=self.day_count_basis)
-        multiplier = (1.0 / discount_factor_from_zero_rate(
+        multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
-            zero_rate=self.schedule.df['zero_rate'],
-            compounding_freq=self.compounding_freq)) - 1.0
+            zero_rate=self.schedule.df['zero_rate'])) - 1.0
         accrued_interest =  self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
         return accrued_interest
 
-- 
2.43.0


From 82cd426c06dd49894e76ea67fe303ae2ced69717 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 090/100] fix: coupons of a pay leg are paid

---
 frm/instruments/leg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1e86bd2..8ea53a8 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -264,7 +264,7 @@ class FixedLeg(Leg):
     def calc_coupon_payment(self, coupon_override=None):
         if coupon_override is not None:
             self.schedule.df['fixed_rate'] = coupon_override
-        self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * self.schedule.df['fixed_rate'] * self.schedule.df['period_yearfrac']
+        self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * self.schedule.df['fixed_rate'] * self.schedule.df['period_yearfrac']
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
 
@@ -395,7 +395,7 @@ class ZerocouponLeg(Leg):
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=self.schedule.df['period_yearfrac'],
             zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
+        self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * multiplier
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
 
-- 
2.43.0


From 0ba06f54eec41fa0e632b6409c48583a97efcd5f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 091/100] fix: accrued interest includes only unsettled coupons

---
 frm/instruments/leg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 8ea53a8..b94e6bb 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -145,7 +145,7 @@ class Leg(ABC):
             mask = (self.schedule.df['coupon_payment_date'] > frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] <= frm.utils.VALUE_DATE)
         if mask.sum() > 1:
             warnings.warn('Multiple periods found for unsettled cashflow calculation.')
-        unsettled_cashflows = self.schedule.df['coupon_payment'].sum()
+        unsettled_cashflows = self.schedule.df.loc[mask, 'coupon_payment'].sum()
 
         if frm.utils.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW:
             if unsettled_cashflows > 0:
-- 
2.43.0


From 707d5633b106a766d8f47d12f51b1976ffb5296e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 092/100] fix: non-current value includes coupons

---
 frm/instruments/leg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index b94e6bb..1e49802 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -208,7 +208,7 @@ class Leg(ABC):
         else:
             current_period_idxs = self.schedule.df['coupon_payment_date'] < value_date_plus_one_year
         current += self.schedule.df['coupon_payment_pv'][current_period_idxs].sum()
-        non_current += self.schedule.df['notional_payment_pv'][~current_period_idxs].sum()
+        non_current += self.schedule.df['coupon_payment_pv'][~current_period_idxs].sum()
 
         return current, non_current
 
-- 
2.43.0


From 901b52125e05ea3073fa97b328a3702abca82229 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 093/100] fix: accrued interest of a zero coupon leg

---
 frm/instruments/leg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1e49802..9e2e5ea 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -408,8 +408,8 @@ class ZerocouponLeg(Leg):
                                          day_count_basis=self.day_count_basis)
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
-            zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        accrued_interest =  self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
+            zero_rate=self.schedule.df['zero_rate'][current_period_idxs])) - 1.0
+        accrued_interest = (self.schedule.df['notional'][current_period_idxs] * multiplier).sum()
         return accrued_interest
 
     def _get_solved_field_name(self):
-- 
2.43.0


From 3f68c2c2fa30b342f449baa8767be757c45c4737 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 094/100] fix: accrued interest uses the contractual coupons

---
 frm/instruments/leg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 9e2e5ea..7be07be 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -136,6 +136,7 @@ class Leg(ABC):
 
     def calc_accrued_interest(self):
         # Leg specific accrued interest calculation
+        self.calc_coupon_payment()
         accrued_interest = self._calc_accrued_interest()
 
         # Calculate the unsettled cashflows
-- 
2.43.0


From 0b6e195645f27d873b0bc111700fd98e21a7c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 095/100] fix: no accrued interest outside the periods

---
 frm/instruments/leg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 7be07be..c6bb35c 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -271,6 +271,8 @@ class FixedLeg(Leg):
 
     def _calc_accrued_interest(self):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
+        if current_period_idxs.sum() == 0:
+            return 0.0
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0],
@@ -317,6 +319,8 @@ class FloatTermLeg(Leg):
 
     def _calc_accrued_interest(self):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
+        if current_period_idxs.sum() == 0:
+            return 0.0
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
@@ -362,6 +366,8 @@ class FloatRFRLeg(Leg):
 
     def _calc_accrued_interest(self):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
+        if current_period_idxs.sum() == 0:
+            return 0.0
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
@@ -403,6 +409,8 @@ class ZerocouponLeg(Leg):
     def _calc_accrued_interest(self):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (
                     self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
+        if current_period_idxs.sum() == 0:
+            return 0.0
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE,
-- 
2.43.0


From 7d91382b2aa01bb1ede4c3edd4dbf7848468a913 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 096/100] fix: limit accrued interest of pay legs too

---
 frm/instruments/leg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index c6bb35c..b1bc35e 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -149,7 +149,7 @@ class Leg(ABC):
         unsettled_cashflows = self.schedule.df.loc[mask, 'coupon_payment'].sum()
 
         if frm.utils.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW:
-            if unsettled_cashflows > 0:
+            if unsettled_cashflows != 0:
                 return unsettled_cashflows
             else:
                 return accrued_interest
-- 
2.43.0


From 0ef98b8586767288c69fd84bdf84556235e14aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 097/100] fix: accrued interest: value date is not a
 termination date

---
 frm/instruments/leg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index b1bc35e..178208e 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -277,7 +277,7 @@ class FixedLeg(Leg):
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0],
                                          frm.utils.VALUE_DATE,
-                                         day_count_basis=self.day_count_basis)
+                                         day_count_basis=self.day_count_basis, is_end_date_on_termination=False)
         accrued_interest = (self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['fixed_rate'][current_period_idxs]
                             * accrued_period_yearfrac).sum()
@@ -323,7 +323,7 @@ class FloatTermLeg(Leg):
             return 0.0
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
-        accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
+        accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis, is_end_date_on_termination=False)
         accrued_interest = (self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['spread'][current_period_idxs]
                             * accrued_period_yearfrac).sum()
@@ -370,7 +370,7 @@ class FloatRFRLeg(Leg):
             return 0.0
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
-        accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
+        accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis, is_end_date_on_termination=False)
         accrued_interest = (self.pay_rcv.multiplier * self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['coupon_rate'][current_period_idxs]
                             * accrued_period_yearfrac).sum()
@@ -414,7 +414,7 @@ class ZerocouponLeg(Leg):
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE,
-                                         day_count_basis=self.day_count_basis)
+                                         day_count_basis=self.day_count_basis, is_end_date_on_termination=False)
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
             zero_rate=self.schedule.df['zero_rate'][current_period_idxs])) - 1.0
-- 
2.43.0


From f5ca591fde21ac2a9f398d10cc3c6b9ad1fa7a1f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 098/100] fix: move_col_after a column to its right

---
 frm/utils/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/utils/utilities.py b/frm/utils/utilities.py
index b121818..003ba5f 100644
--- a/frm/utils/utilities.py
+++ b/frm/utils/utilities.py
@@ -48,7 +48,8 @@ def clean_input_dataframe(df):
 
 def move_col_after(df, col_to_move, ref_col):
     cols = df.columns.tolist()
-    cols.insert(cols.index(ref_col) + 1, cols.pop(cols.index(col_to_move)))
+    cols.remove(col_to_move)
+    cols.insert(cols.index(ref_col) + 1, col_to_move)
     return df[cols]
 
 
-- 
2.43.0


From fbbbbe26b57147b990f4bfcb005bcd95649405d0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 099/100] fix: internal ids of tables with a named index or an
 index column

---
 frm/utils/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/utilities.py b/frm/utils/utilities.py
index 003ba5f..b795697 100644
--- a/frm/utils/utilities.py
+++ b/frm/utils/utilities.py
@@ -30,7 +30,7 @@ def copy_errors_and_warnings_to_input(df_processed, df_input):
 def clean_input_dataframe(df):    
     
     if 'internal_id' not in df.columns:
-        df = df.reset_index().rename(columns={'index': 'internal_id'})
+        df = df.reset_index(names='internal_id')
         
     df = df.dropna(subset=[col for col in df.columns if col != 'internal_id'], how='all')
     df.reset_index(drop=True, inplace=True)
-- 
2.43.0


From b4b476f9f8c34b2333de6d29858727a054c46439 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:18:51 +0000
Subject: [PATCH 100/100] fix: SABR smile fits whose line search stops early or
 fails

---
 frm/pricing_engine/sabr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index 5cc68ff..942704e 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -251,6 +251,10 @@ def fit_sabr_params_to_sln_smile(tau: float,
     x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
     bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0), (0.0001, None)]
     res = scipy.optimize.minimize(fun=lambda param: vol_sse(param), x0=x0, bounds=bounds, options={'ftol': 1e-12, 'gtol': 1e-9})
+    # The line search can stop early or fail where it meets parameters without a valid smile, the simplex search does not
+    res_simplex = scipy.optimize.minimize(fun=lambda param: vol_sse(param), x0=res.x, bounds=bounds, method='Nelder-Mead', options={'xatol': 1e-8, 'fatol': 1e-12})
+    if res_simplex.success and (res_simplex.fun < res.fun or not res.success):
+        res = res_simplex
 
     if res.success:
         beta, rho, volvol = (beta_overide, *res.x) if beta_overide is not None else res.x
-- 
2.43.0

