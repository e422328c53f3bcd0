From 0f9e88134189abce3007506b169f79100fb27dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:06 +0000
Subject: [PATCH 01/39] fix: do not extrapolate instantaneous power past its
 last valid value in energy_from_power

---
 rdtools/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 23784a0..636b225 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -507,7 +507,7 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     t_diffs_hours = t_diffs / 10**9 / 3600.0
     if series_type == 'instantaneous':
         # interpolate with trapz sum
-        time_series = time_series.interpolate(method='time')
+        time_series = time_series.interpolate(method='time', limit_area='inside')
         time_series[gap_mask] = np.nan
         values = time_series.values
         series_sum = (values[1:] + values[:-1]) / 2 * t_diffs_hours
-- 
2.43.0


From d5f4b015ffb5310e7abbb7cfb7bbf3520496e9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:07 +0000
Subject: [PATCH 02/39] fix: keep the instantaneous energy of the interval that
 follows a data gap

---
 rdtools/normalization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 636b225..2bbbf13 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -508,9 +508,10 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     if series_type == 'instantaneous':
         # interpolate with trapz sum
         time_series = time_series.interpolate(method='time', limit_area='inside')
-        time_series[gap_mask] = np.nan
         values = time_series.values
         series_sum = (values[1:] + values[:-1]) / 2 * t_diffs_hours
+        # omit only the intervals that are part of a gap, not the one that follows it
+        series_sum[gap_mask.values[1:]] = np.nan
     elif series_type == 'right_labeled':
         # bfill and rectangular sum
         time_series = time_series.bfill()
-- 
2.43.0


From e93db0cf921fdd159c4139f3cad169c9f2180fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:51 +0000
Subject: [PATCH 03/39] fix: return NaN energy instead of raising when no power
 value is usable

---
 rdtools/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 2bbbf13..3c7606c 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -498,7 +498,7 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     max_interval_nanoseconds = max_timedelta.total_seconds() * 10.0**9
 
     gap_mask = t_diffs > max_interval_nanoseconds
-    if time_series.index[0] != union_index[0]:
+    if len(time_series) > 0 and time_series.index[0] != union_index[0]:
         # mask leading NaNs
         gap_mask[:time_series.index[0]] = True
 
-- 
2.43.0


From 85e437d18ed8932d623812d69fa845d13b7175a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:06 +0000
Subject: [PATCH 04/39] fix: count a point as used when a later slope that
 starts at it is valid

---
 rdtools/degradation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 1698b36..6235a6f 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -286,7 +286,8 @@ def degradation_year_on_year(energy_normalized, recenter=True,
 
     yoy_result = df.yoy.dropna()
 
-    df_right = df.set_index(df.dt_right).drop_duplicates('dt_right')
+    df_right = df[df.yoy.notnull()].drop_duplicates('dt_right')
+    df_right = df_right.set_index(df_right.dt_right)
     df['usage_of_points'] = df.yoy.notnull().astype(int).add(
                 df_right.yoy.notnull().astype(int), fill_value=0)
 
-- 
2.43.0


From a5d83c68d723c11fa0fe1dda88e4699d57befecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:19 +0000
Subject: [PATCH 05/39] fix: subtract the tie correction in the Mann-Kendall
 variance

---
 rdtools/degradation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 6235a6f..6600252 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -402,7 +402,7 @@ def _mk_test(x, alpha=0.05):
         tp = np.zeros(unique_x.shape)
         for i in range(len(unique_x)):
             tp[i] = sum(unique_x[i] == x)
-        var_s = (n * (n - 1) * (2 * n + 5) +
+        var_s = (n * (n - 1) * (2 * n + 5) -
                  np.sum(tp * (tp - 1) * (2 * tp + 5))) / 18
 
     if s > 0:
-- 
2.43.0


From dd60adb791b6c7069df4f403dd8abf6f00d71073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:19 +0000
Subject: [PATCH 06/39] fix: do not rename the caller's series in the
 regression-based degradation functions

---
 rdtools/degradation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 6600252..76f0df2 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -34,8 +34,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
         and least squares RegressionResults object ('ols_results')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame(name='energy_normalized')
 
     # calculate a years column as x value for regression, ignoring leap years
     day_diffs = (df.index - df.index[0])
@@ -109,8 +108,7 @@ def degradation_classical_decomposition(energy_normalized,
         Mann-Kendall test trend ('mk_test_trend')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame(name='energy_normalized')
 
     df_check_freq = df.copy()
 
-- 
2.43.0


From 12f1581d5c9d56c93b325b8b25433637ae99f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:10 +0000
Subject: [PATCH 07/39] fix: regression-based degradation raised KeyError for
 constant energy

---
 rdtools/degradation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 76f0df2..0fe4f8c 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -42,7 +42,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
     df['years'] = df.days / 365.0
 
     # add intercept-constant to the exogeneous variable
-    df = sm.add_constant(df)
+    df = sm.add_constant(df, has_constant='add')
 
     # perform regression
     ols_model = sm.OLS(endog=df.energy_normalized,
@@ -135,7 +135,7 @@ def degradation_classical_decomposition(energy_normalized,
     df['energy_ma'] = energy_ma
 
     # add intercept-constant to the exogeneous variable
-    df = sm.add_constant(df)
+    df = sm.add_constant(df, has_constant='add')
 
     # perform regression
     ols_model = sm.OLS(endog=df.energy_ma, exog=df.loc[:, ['const', 'years']],
-- 
2.43.0


From 4bbbaa4c347ba0bfd9bed18fe0b68b4dc08fe535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:57 +0000
Subject: [PATCH 08/39] fix: apply the Tukey parameter k to the lower fence as
 well

---
 rdtools/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 7c3759d..1716546 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1029,7 +1029,7 @@ def _tukey_fence(series, k=1.5):
     p75 = series.quantile(0.75)
     iqr = p75 - p25
     upper_fence = k * iqr + p75
-    lower_fence = p25 - 1.5 * iqr
+    lower_fence = p25 - k * iqr
     return lower_fence, upper_fence
 
 
-- 
2.43.0


From d33fb09397db588e672faa5cadf027f9d827c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:57 +0000
Subject: [PATCH 09/39] fix: directional_tukey_filter must keep points that are
 not beyond the fences

---
 rdtools/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 1716546..b96f7e4 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1068,8 +1068,8 @@ def directional_tukey_filter(series, roll_period=pd.to_timedelta("7 Days"), k=1.
     backward_dif_lower, backward_dif_upper = _tukey_fence(backward_dif, k)
     forward_dif_lower, forward_dif_upper = _tukey_fence(forward_dif, k)
 
-    mask = ((forward_dif > forward_dif_lower) & (forward_dif < forward_dif_upper)) | (
-        (backward_dif > backward_dif_lower) & (backward_dif < backward_dif_upper)
+    mask = ((forward_dif >= forward_dif_lower) & (forward_dif <= forward_dif_upper)) | (
+        (backward_dif >= backward_dif_lower) & (backward_dif <= backward_dif_upper)
     )
     return mask
 
-- 
2.43.0


From b816e3e66564ae3342aa15d764f6811358c6df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:57 +0000
Subject: [PATCH 10/39] fix: wrap the hour angle so that hour_angle_filter is
 independent of the time zone

---
 rdtools/filtering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index b96f7e4..ea76b50 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1103,6 +1103,8 @@ def hour_angle_filter(series, lat, lon, min_hour_angle=-30, max_hour_angle=30):
     spa = pvlib.solarposition.get_solarposition(times, lat, lon)
     eot = spa["equation_of_time"]
     hour_angle = pvlib.solarposition.hour_angle(times, lon, eot)
+    # pvlib does not wrap at midnight of the index time zone; use [-180, 180)
+    hour_angle = (hour_angle + 180) % 360 - 180
     hour_angle = pd.Series(hour_angle, index=times)
     mask = (hour_angle >= min_hour_angle) & (hour_angle <= max_hour_angle)
 
-- 
2.43.0


From 9d03effd724bc01125f4d5dd5a069ef0522212de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:08 +0000
Subject: [PATCH 11/39] fix: hour_angle_filter was off by one hour on days with
 a daylight saving change

---
 rdtools/filtering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index ea76b50..5e4a9cb 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1102,7 +1102,9 @@ def hour_angle_filter(series, lat, lon, min_hour_angle=-30, max_hour_angle=30):
     times = series.index
     spa = pvlib.solarposition.get_solarposition(times, lat, lon)
     eot = spa["equation_of_time"]
-    hour_angle = pvlib.solarposition.hour_angle(times, lon, eot)
+    # evaluate in UTC: pvlib miscounts the hours of days with a daylight saving change
+    times_utc = times if times.tz is None else times.tz_convert("UTC")
+    hour_angle = pvlib.solarposition.hour_angle(times_utc, lon, eot)
     # pvlib does not wrap at midnight of the index time zone; use [-180, 180)
     hour_angle = (hour_angle + 180) % 360 - 180
     hour_angle = pd.Series(hour_angle, index=times)
-- 
2.43.0


From 81857e4ccd4527e304f57d93caad8129c26c1f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:58 +0000
Subject: [PATCH 12/39] fix: xgboost_clip_filter applied the last clipping
 day's levels to all later days

---
 rdtools/filtering.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 5e4a9cb..20658d9 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -884,11 +884,13 @@ def xgboost_clip_filter(power_ac, mounting_type="fixed"):
     power_ac_df = _calculate_xgboost_model_features(power_ac_df, sampling_frequency)
     # Add back in XGB predictions for the original dataframe
     power_ac_df["xgb_predictions"] = xgb_predictions.astype(bool)
-    power_ac_df_clipping = power_ac_df[power_ac_df["xgb_predictions"].fillna(False)]
+    # Keep the days without clipping (as NaN), so that the clipping levels of the
+    # last day with clipping are not applied to the days that follow it.
+    clipping_value = power_ac_df["scaled_value"].where(power_ac_df["xgb_predictions"])
     # Make everything between the
     # max and min values found for clipping each day as clipping.
-    power_ac_df_clipping_max = power_ac_df_clipping["scaled_value"].resample("D").max()
-    power_ac_df_clipping_min = power_ac_df_clipping["scaled_value"].resample("D").min()
+    power_ac_df_clipping_max = clipping_value.resample("D").max()
+    power_ac_df_clipping_min = clipping_value.resample("D").min()
     power_ac_df["daily_clipping_min"] = power_ac_df_clipping_min.reindex(
         index=power_ac_df.index, method="ffill"
     )
-- 
2.43.0


From bab27c8eabfd59b31dc6b3cd755a1687c292e14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:10 +0000
Subject: [PATCH 13/39] fix: clear-sky temperature was NaN next to the date
 line and at the south pole

---
 rdtools/clearsky_temperature.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index ebe617f..0c9d2c5 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -76,8 +76,9 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
     lon_temp = longitude - 180
     if lon_temp < 0:
         lon_temp += 360
-    lon_index = round(float(lons) * float(lon_temp) / 360.0)
-    lat_index = round(float(lats) * (90.0 - float(latitude)) / 180.0)
+    # the pixels wrap around at the date line, and the last one extends to the south pole
+    lon_index = round(float(lons) * float(lon_temp) / 360.0) % lons
+    lat_index = min(round(float(lats) * (90.0 - float(latitude)) / 180.0), lats - 1)
 
     df = pd.DataFrame(index=dt_daily)
     df['month'] = df.index.month
-- 
2.43.0


From 077577ef7e77f99e0edde97100ca4a2b3303dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:53 +0000
Subject: [PATCH 14/39] fix: clear-sky temperature stuck at one date for data
 frequencies off the daily grid

---
 rdtools/clearsky_temperature.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index 0c9d2c5..39dca29 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -102,7 +102,10 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
     df = df.rolling(window=window_size, win_type='gaussian', min_periods=1,
                     center=True).mean(std=gauss_std)
 
-    df = df.resample(freq_actual).interpolate(method='linear')
+    # keep the daily values, which are not all on the grid of freq_actual
+    # (e.g. six hours after a daylight saving change)
+    grid = df.resample(freq_actual).asfreq().index
+    df = df.reindex(df.index.union(grid)).interpolate(method='time')
     df['month'] = df.index.month
 
     df = df.reindex(times, method='nearest')
-- 
2.43.0


From 68612baf963baee9001a023d29a915b044c5952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:04 +0000
Subject: [PATCH 15/39] fix: clear-sky temperature raised AmbiguousTimeError
 where midnight occurs twice

---
 rdtools/clearsky_temperature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index 39dca29..c9ce9ec 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -62,7 +62,8 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     dt_daily = pd.date_range(times.date[0] - buffer, times.date[-1] + buffer,
                              freq='D')
-    dt_daily = dt_daily.tz_localize(times.tz, ambiguous='infer',
+    # daily stamps never repeat, so an ambiguous midnight cannot be inferred: take the first
+    dt_daily = dt_daily.tz_localize(times.tz, ambiguous=np.ones(len(dt_daily), dtype=bool),
                                     nonexistent='shift_forward')
 
     f = h5py.File(filepath, "r")
-- 
2.43.0


From 77e84ece306a3bec8506cdaefa907ad519bfd72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:36 +0000
Subject: [PATCH 16/39] fix: energy at the start of an outage that begins with
 the data was taken from its end

---
 rdtools/availability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 06d5778..2f3a976 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -439,7 +439,8 @@ class AvailabilityAnalysis:
 
             # self.cumulative_energy[start] is the first value in the outage.
             # so to get the starting energy, need to get previous value:
-            start_minus_one = all_times[all_times.get_loc(start)-1]
+            # (there is none if the data starts in the outage)
+            start_minus_one = all_times[max(all_times.get_loc(start)-1, 0)]
 
             data = {
                 'start': start,
-- 
2.43.0


From 5f922a8a755a6ace544fec0188208f93befe4601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:16 +0000
Subject: [PATCH 17/39] fix: spread the loss and production of an outage over
 all of its intervals

---
 rdtools/availability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 2f3a976..a9d3a93 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -499,12 +499,14 @@ class AvailabilityAnalysis:
         # scaling the expected power signal to match the actual
         lost_power_full = pd.Series(0, index=self.loss_subsystem.index, dtype=float)
         expected_power = self.power_expected
+        expected_energy = rdtools.energy_from_power(expected_power)
         corrected_cumulative_energy = self.energy_cumulative.copy()
         for i, row in self.outage_info.iterrows():
             start = row['start']
             end = row['end']
             subset = expected_power.loc[start:end].copy()
-            subset_energy = rdtools.energy_from_power(subset)
+            # includes the energy of the first interval of the outage
+            subset_energy = expected_energy.loc[start:end]
             loss_fill = subset * row['loss'] / subset_energy.sum()
             lost_power_full.loc[subset.index] += loss_fill
 
-- 
2.43.0


From a08674482cc9bdb10627292c9730022900e45a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:00 +0000
Subject: [PATCH 18/39] fix: rolled-up production omitted the interval that
 crosses into each period

---
 rdtools/availability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index a9d3a93..14e10b4 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -553,8 +553,11 @@ class AvailabilityAnalysis:
         # calculate actual production based on corrected cumulative meter
         cumulative_energy = self.energy_cumulative_corrected
         resampled_cumulative = cumulative_energy.resample(rollup_period)
+        # include the interval between the end of one period and the start of the next
+        period_end = resampled_cumulative.last()
+        period_start = period_end.ffill().shift()
         actual_production = (
-            resampled_cumulative.last() - resampled_cumulative.first()
+            period_end - period_start.fillna(resampled_cumulative.first())
         )
 
         lost_production = rdtools.energy_from_power(self.loss_total)
-- 
2.43.0


From 5d602c1715a8d69f5b67e59b267c5bcf67f4b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:35 +0000
Subject: [PATCH 19/39] fix: SRR assigned the levels of invalid intervals to
 the wrong intervals

The levels were drawn in the iteration order of a set of group numbers but
assigned in the order of the intervals, which differs e.g. for groups 1 and 8.
---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 92a3bfb..005d4d0 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -456,7 +456,7 @@ class SRRAnalysis():
                     invalid_intervals['previous_end'].fillna(1.0)
                 invalid_intervals['next_start'] = \
                     invalid_intervals['next_start'].fillna(1.0)
-                groups = set(invalid_intervals.group)
+                groups = sorted(set(invalid_intervals.group))
                 replace_levels = []
 
                 if len(groups) > 0:
-- 
2.43.0


From 74d092896b285ff3f661df6de7602abbca45b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:42 +0000
Subject: [PATCH 20/39] fix: count calendar days since cleaning in SRR

Elapsed 24 h periods are one fewer than the calendar days after a spring daylight
saving change within a soiling interval of time zone aware daily data.
---
 rdtools/soiling.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 005d4d0..70b78b0 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -324,8 +324,10 @@ class SRRAnalysis():
 
         pm_frame_out['loss_perfect_clean'] = np.nan
         pm_frame_out['loss_inferred_clean'] = np.nan
+        # count calendar days so that daylight saving changes do not matter
         pm_frame_out['days_since_clean'] = \
-            (pm_frame_out.index - pm_frame_out.start).dt.days
+            (pm_frame_out.index.tz_localize(None)
+             - pm_frame_out.start.dt.tz_localize(None)).dt.days
 
         # Calculate the daily derate
         pm_frame_out['loss_perfect_clean'] = \
@@ -489,8 +491,10 @@ class SRRAnalysis():
                              .merge(results_rand, how='left', on='run') \
                              .set_index('date')
             df_rand['loss'] = np.nan
+            # count calendar days so that daylight saving changes do not matter
             df_rand['days_since_clean'] = \
-                (df_rand.index - df_rand.start).dt.days
+                (df_rand.index.tz_localize(None)
+                 - df_rand.start.dt.tz_localize(None)).dt.days
             df_rand['loss'] = df_rand.start_loss + \
                 df_rand.days_since_clean * df_rand.run_slope
 
-- 
2.43.0


From 8d291598d33a697f2289c84131a97da8d2f305a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:34 +0000
Subject: [PATCH 21/39] fix: recenter SRR on all 365 days of the first year in
 any time zone

364 times 24 h end before the last day when daylight saving changes in between.
---
 rdtools/soiling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 70b78b0..a8201a9 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -149,8 +149,8 @@ class SRRAnalysis():
 
         # Recenter to median of first year, as in YoY degradation
         if recenter:
-            oneyear = start + pd.Timedelta('364d')
-            renorm = df.loc[start:oneyear, 'pi'].median()
+            # first 365 days, whatever the daylight saving changes
+            renorm = df['pi'].iloc[:365].median()
         else:
             renorm = 1
 
-- 
2.43.0


From 7b62f3ed84dba563dd44d79cb722cd371cbf6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:41 +0000
Subject: [PATCH 22/39] fix: CODS upper soiling loss for small signals was a
 fraction instead of percent

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index a8201a9..bdaa36d 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1771,7 +1771,7 @@ class CODSAnalysis():
             self.residual_shift = results[np.argmax(weights)]['residual_shift']
             YOY = RdToolsDeg.degradation_year_on_year(pi)
             self.degradation = [YOY[0], YOY[1][0], YOY[1][1]]
-            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean()]
+            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean() * 100]
             self.small_soiling_signal = True
             self.errors = (
                 'Soiling signal is small relative to the noise. '
-- 
2.43.0


From f45946ab3c732d5f16147a131ea4ec07cb6129b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:41 +0000
Subject: [PATCH 23/39] fix: CODS reported the soiling ratio of the last
 instead of the best model fit

The best of the initial fits was selected, but the results were then written
into the data frame of whichever fit came last.
---
 rdtools/soiling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index bdaa36d..9c06019 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1762,7 +1762,7 @@ class CODSAnalysis():
 
         # Save best model
         self.initial_fits = [df for df in list_of_df_out]
-        result_df = list_of_df_out[np.argmax(weights)]
+        result_df = list_of_df_out[np.argmax(weights)].copy()
 
         # If more than half of the model fits indicate small soiling signal,
         # don't do bootstrapping
@@ -1884,6 +1884,9 @@ class CODSAnalysis():
         concat_r_s = pd.concat([kdf.soiling_rates for kdf in bt_kdfs], axis=1)
         concat_ce = pd.concat([kdf.cleaning_events for kdf in bt_kdfs], axis=1)
 
+        # Start from the best initial model fit
+        df_out = result_df
+
         # Find confidence intervals for SR and soiling rates
         df_out['SR_low'] = concat_SR.quantile(ci_low_edge, 1)
         df_out['SR_high'] = concat_SR.quantile(ci_high_edge, 1)
-- 
2.43.0


From 682a7bb45eb7a6bed2ea80106858b76a6ed41619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:13 +0000
Subject: [PATCH 24/39] fix: CODS bootstrap failed when some initial fits were
 not usable

With one or more initial fits that raised ValueError or had non-stationary
residuals there were fewer samples than repetitions, and the bootstrap ended
with a KeyError or IndexError although the data was deemed decomposable.
---
 rdtools/soiling.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 9c06019..375ff4b 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1689,7 +1689,7 @@ class CODSAnalysis():
                                      for j in range(len(parameter_alternatives))]
                                      for indexes in index_list]
         nr_models = len(index_list)
-        bootstrap_samples_list, list_of_df_out, results = [], [], []
+        list_of_df_out, results = [], []
 
         # Check boostrap number
         if reps % nr_models != 0:
@@ -1710,16 +1710,6 @@ class CODSAnalysis():
                 # Save results
                 list_of_df_out.append(df_out)
                 results.append(result_dict)
-                adf = result_dict['adf_res']
-                # If we can reject the null-hypothesis that there is a unit
-                # root in the residuals:
-                if adf[1] < .05:
-                    # ... generate bootstrap samples based on the fit:
-                    bootstrap_samples_list.append(
-                        _make_time_series_bootstrap_samples(
-                            pi, df_out.total_model,
-                            sample_nr=int(reps / nr_models),
-                            bootstrap_seed=bootstrap_seed))
 
                 # Print progress
                 if verbose:
@@ -1781,16 +1771,21 @@ class CODSAnalysis():
             return self.result_df, self.degradation, self.soiling_loss
         self.small_soiling_signal = False
 
-        # Aggregate all bootstrap samples
-        all_bootstrap_samples = pd.concat(bootstrap_samples_list, axis=1,
-                                          ignore_index=True)
+        # Generate the same number of bootstrap samples from each fit for which we
+        # can reject the null-hypothesis that there is a unit root in the residuals
+        stationary_fits = [df for df, r in zip(list_of_df_out, results)
+                           if r['adf_res'][1] < .05]
+        sample_nr = int(np.ceil(reps / len(stationary_fits)))
+        reps = sample_nr * len(stationary_fits)
+        all_bootstrap_samples = pd.concat(
+            [_make_time_series_bootstrap_samples(
+                pi, df.total_model, sample_nr=sample_nr,
+                bootstrap_seed=bootstrap_seed) for df in stationary_fits],
+            axis=1, ignore_index=True)
 
         # Seasonal samples are generated from previously fitted seasonal
         # components, by perturbing amplitude and phase shift
-        # Number of samples per fit:
-        sample_nr = int(reps / nr_models)
-        list_of_SCs = [list_of_df_out[m].seasonal_component
-                       for m in range(nr_models) if weights[m] > 0]
+        list_of_SCs = [df.seasonal_component for df in stationary_fits]
         seasonal_samples = _make_seasonal_samples(list_of_SCs,
                                                   sample_nr=sample_nr,
                                                   min_multiplier=.8,
-- 
2.43.0


From 082a72012c550ac69fdfc937e7e7b15ea3093c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:30 +0000
Subject: [PATCH 25/39] fix: CODS bootstrapped estimates were too low on days
 that not all samples cover

Bootstrap samples of data with gaps can begin with missing days, which counted
as a soiling ratio of zero in the weighted mean.
---
 rdtools/soiling.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 375ff4b..d9512a4 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1891,11 +1891,11 @@ class CODSAnalysis():
         # Save best estimate and bootstrapped estimates of SR and soiling rates
         df_out.soiling_ratio = df_out.soiling_ratio.clip(lower=0, upper=1)
         df_out.loc[df_out.soiling_ratio.diff() == 0, 'soiling_rates'] = 0
-        df_out['bt_soiling_ratio'] = (concat_SR * weights).sum(1)
-        df_out['bt_soiling_rates'] = (concat_r_s * weights).sum(1)
+        df_out['bt_soiling_ratio'] = _weighted_mean(concat_SR, weights)
+        df_out['bt_soiling_rates'] = _weighted_mean(concat_r_s, weights)
 
         # Set probability of cleaning events
-        df_out.cleaning_events = (concat_ce * weights).sum(1)
+        df_out.cleaning_events = _weighted_mean(concat_ce, weights)
 
         # Find degradation rates
         self.degradation = [np.dot(bt_deg, weights),
@@ -2621,6 +2621,13 @@ def _RMSE(y_true, y_pred):
     return np.sqrt(np.mean((y_pred[mask]-y_true[mask])**2))
 
 
+def _weighted_mean(samples, weights):
+    '''Weighted mean of the columns of samples, on each day over the columns
+        that have a value.'''
+    samples = samples.astype(float)
+    return (samples * weights).sum(1) / (samples.notna() * weights).sum(1)
+
+
 def _MSD(y_true, y_pred):
     '''Calculates the Mean Signed Deviation for y_true and y_pred, where y_pred
         is the "prediction", and y_true is the truth.'''
-- 
2.43.0


From 1bf8e192d169dda8fb04a27320200c7b474080a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:40 +0000
Subject: [PATCH 26/39] fix: do not overwrite missing values in the caller's
 ad_hoc_filter

---
 rdtools/analysis_chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 9492bad..97e4c56 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -619,6 +619,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter = ad_hoc_filter.copy()
                 ad_hoc_filter.loc[ad_hoc_filter.isnull()] = False
 
             if not filter_components.index.equals(ad_hoc_filter.index):
@@ -709,6 +710,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "aggregated ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter_aggregated = ad_hoc_filter_aggregated.copy()
                 ad_hoc_filter_aggregated.loc[ad_hoc_filter_aggregated.isnull()] = False
 
             if not filter_components_aggregated.index.equals(
-- 
2.43.0


From 510546f5fa63c954ad6a1c60b31dc9d5a3590639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:49 +0000
Subject: [PATCH 27/39] fix: clear-sky irradiance for series of tilt, azimuth
 or albedo was not averaged

The modelled irradiance is averaged over each interval from one-minute values,
but with a time series of tilt or azimuth all minutes except the last one of
each interval were lost, so that the result was the value at the interval end.
---
 rdtools/analysis_chains.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 97e4c56..2280a5a 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -344,15 +344,21 @@ class TrendAnalysis:
         sun = loc.get_solarposition(times, **solar_position_kwargs)
         clearsky = loc.get_clearsky(times, solar_position=sun)
 
+        def on_times(x):
+            # right-labeled series apply to the interval before each label
+            if isinstance(x, (pd.Series, pd.DataFrame)):
+                x = x.squeeze().reindex(times, method="backfill")
+            return x
+
         clearsky_poa = pvlib.irradiance.get_total_irradiance(
-            self.pv_tilt,
-            self.pv_azimuth,
+            on_times(self.pv_tilt),
+            on_times(self.pv_azimuth),
             sun["apparent_zenith"],
             sun["azimuth"],
             clearsky["dni"],
             clearsky["ghi"],
             clearsky["dhi"],
-            albedo=self.albedo,
+            albedo=on_times(self.albedo),
             **kwargs,
         )
         clearsky_poa = clearsky_poa["poa_global"]
-- 
2.43.0


From cc99849a816dfd22ebbfc07f4ed9e0fb52487026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:56 +0000
Subject: [PATCH 28/39] fix: sensor_clearsky_filter was also applied in
 clear-sky analyses

---
 rdtools/analysis_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 2280a5a..23d3397 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -608,7 +608,7 @@ class TrendAnalysis:
                 "clearsky_filter"
             )
 
-        if "sensor_clearsky_filter" in self.filter_params:
+        if case == "sensor" and "sensor_clearsky_filter" in self.filter_params:
             filter_components["sensor_clearsky_filter"] = _call_clearsky_filter(
                 "sensor_clearsky_filter"
             )
-- 
2.43.0


From cdd440458d894ed6a4a246fc852a69c9fd033518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:56 +0000
Subject: [PATCH 29/39] fix: updating filter parameters from an iterator of
 pairs had no effect

---
 rdtools/analysis_chains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 23d3397..d33cce3 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -1291,10 +1291,12 @@ class ValidatedFilterDict(dict):
         super(ValidatedFilterDict, self).__setitem__(key, value)
 
     def update(self, *args, **kwargs):
-        for key in dict(*args, **kwargs).keys():
+        # args may be an iterator, which can be read only once
+        new_items = dict(*args, **kwargs)
+        for key in new_items.keys():
             if key not in self.valid_keys:
                 raise KeyError(self._err_msg.format(key))
-        super(ValidatedFilterDict, self).update(*args, **kwargs)
+        super(ValidatedFilterDict, self).update(new_items)
 
     def _validate_keys(self):
         for key in self.keys():
-- 
2.43.0


From 673af9690428a7ad6351ce155783ad8c00229b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:56 +0000
Subject: [PATCH 30/39] fix: invalid filter parameters were accepted through |=
 and setdefault

---
 rdtools/analysis_chains.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index d33cce3..f4d55ec 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -1298,6 +1298,15 @@ class ValidatedFilterDict(dict):
                 raise KeyError(self._err_msg.format(key))
         super(ValidatedFilterDict, self).update(new_items)
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def _validate_keys(self):
         for key in self.keys():
             if key not in self.valid_keys:
-- 
2.43.0


From 7c22dd6ff1962e5f44e264ecdcebcba492b3b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:22 +0000
Subject: [PATCH 31/39] fix: default degradation summary plot failed for fewer
 than 40 slopes

---
 rdtools/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/plotting.py b/rdtools/plotting.py
index 93a07ba..efb8fbb 100644
--- a/rdtools/plotting.py
+++ b/rdtools/plotting.py
@@ -72,7 +72,7 @@ def degradation_summary_plots(yoy_rd, yoy_ci, yoy_info, normalized_yield,
     yoy_values = yoy_info['YoY_values']
 
     if bins is None:
-        bins = len(yoy_values) // 40
+        bins = max(len(yoy_values) // 40, 1)
 
     bins = int(min(bins, len(yoy_values)))
 
-- 
2.43.0


From d010f8c318f1a7aadf3eb68c43cdb99ffae498ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:22 +0000
Subject: [PATCH 32/39] fix: degradation time series plot labelled the current
 axes instead of its own

---
 rdtools/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/plotting.py b/rdtools/plotting.py
index efb8fbb..28e1549 100644
--- a/rdtools/plotting.py
+++ b/rdtools/plotting.py
@@ -498,7 +498,7 @@ def degradation_timeseries_plot(yoy_info, rolling_days=365, include_ci=True,
         ax.fill_between(ci_lower.index, ci_lower, ci_upper, color=ci_color)
     ax.plot(roller.median(), color=plot_color, **kwargs)
     ax.axhline(results_values.median(), c='k', ls='--')
-    plt.ylabel('Degradation trend (%/yr)')
+    ax.set_ylabel('Degradation trend (%/yr)')
     fig.autofmt_xdate()
 
     return fig
-- 
2.43.0


From 181dd1fe01365196352d196618260032614ed0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:25 +0000
Subject: [PATCH 33/39] fix: clear-sky temperature failed when its smoothing
 window starts at a midnight the clock skips or repeats

---
 rdtools/clearsky_temperature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index c9ce9ec..3290a47 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -105,7 +105,9 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     # keep the daily values, which are not all on the grid of freq_actual
     # (e.g. six hours after a daylight saving change)
-    grid = df.resample(freq_actual).asfreq().index
+    # in UTC, as the clock may skip or repeat the midnight of the first stamp
+    grid = df.tz_convert('UTC').resample(freq_actual, origin='start').asfreq().index
+    grid = grid.tz_convert(times.tz)
     df = df.reindex(df.index.union(grid)).interpolate(method='time')
     df['month'] = df.index.month
 
-- 
2.43.0


From c72d326fd3c7181a8820f3ea27ddfadf56bc6480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:06 +0000
Subject: [PATCH 34/39] fix: CODS bootstrap assumed exactly two alternatives of
 each model option

---
 rdtools/soiling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index d9512a4..3bc8397 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1684,7 +1684,8 @@ class CODSAnalysis():
                                   cleaning_sensitivity_alternatives,
                                   clean_pruning_sensitivity_alternatives,
                                   forward_fill_alternatives]
-        index_list = list(itertools.product([0, 1], repeat=len(parameter_alternatives)))
+        index_list = list(itertools.product(
+            *[range(len(alternatives)) for alternatives in parameter_alternatives]))
         combination_of_parameters = [[parameter_alternatives[j][indexes[j]]
                                      for j in range(len(parameter_alternatives))]
                                      for indexes in index_list]
-- 
2.43.0


From 2c596ad3b5ba300d2d4e44ade81a2e8118fec9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:24 +0000
Subject: [PATCH 35/39] fix: filtered aggregates were put on other bins than
 those of the aggregation

Binning again from the first bin kept moves the bins when they do not
divide the day or when the clock changed since the start of the data, and
every aggregate was then replaced by NaN.
---
 rdtools/analysis_chains.py | 47 ++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index f4d55ec..564db7d 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -870,6 +870,29 @@ class TrendAnalysis:
 
         return srr_results
 
+    def _restore_bins(self, filtered, bins):
+        """
+        Put filtered aggregated data back on every aggregation bin from the
+        first to the last one kept, with NaN where bins were filtered out.
+        The bins are those of the aggregation itself: binning again from the
+        first bin kept can give different ones.
+
+        Parameters
+        ----------
+        filtered : pandas.Series
+            aggregated time series after filtering
+        bins : pandas.DatetimeIndex
+            index of the aggregated time series before filtering
+
+        Returns
+        -------
+        pandas.Series
+        """
+        kept = bins.get_indexer(filtered.index)
+        if len(kept) == 0:
+            return filtered.reindex(bins[:0])
+        return filtered.reindex(bins[kept[0]:kept[-1] + 1])
+
     def _sensor_preprocess(self):
         """
         Perform sensor-based normalization, filtering, and aggregation.
@@ -924,14 +947,12 @@ class TrendAnalysis:
         ]
 
         # Reindex the data after the fact, so it's on the aggregated interval
-        self.sensor_aggregated_performance = (
-            self.sensor_aggregated_performance.resample(
-                self.aggregation_freq, origin="start_day"
-            ).asfreq()
+        self.sensor_aggregated_performance = self._restore_bins(
+            self.sensor_aggregated_performance, aggregated.index
+        )
+        self.sensor_aggregated_insolation = self._restore_bins(
+            self.sensor_aggregated_insolation, aggregated.index
         )
-        self.sensor_aggregated_insolation = self.sensor_aggregated_insolation.resample(
-            self.aggregation_freq, origin="start_day"
-        ).asfreq()
 
     def _clearsky_preprocess(self):
         """
@@ -989,15 +1010,11 @@ class TrendAnalysis:
         ]
 
         # Reindex the data after the fact, so it's on the aggregated interval
-        self.clearsky_aggregated_performance = (
-            self.clearsky_aggregated_performance.resample(
-                self.aggregation_freq, origin="start_day"
-            ).asfreq()
+        self.clearsky_aggregated_performance = self._restore_bins(
+            self.clearsky_aggregated_performance, cs_aggregated.index
         )
-        self.clearsky_aggregated_insolation = (
-            self.clearsky_aggregated_insolation.resample(
-                self.aggregation_freq, origin="start_day"
-            ).asfreq()
+        self.clearsky_aggregated_insolation = self._restore_bins(
+            self.clearsky_aggregated_insolation, cs_aggregated.index
         )
 
     def sensor_analysis(
-- 
2.43.0


From 2578f63d0643680e3041e0ad568b1e5040a4f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:12 +0000
Subject: [PATCH 36/39] fix: energy and interpolation were wrong for time
 stamps at another resolution than nanoseconds

The integer view of the index was taken for nanoseconds. With the
microsecond or second resolution that pandas 2 gives data from many files
the energy came out too small by that factor and interpolated values got
time stamps far in the future.
---
 rdtools/normalization.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 3c7606c..491eb77 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -197,7 +197,7 @@ def _delta_index(series):
         # If there is no frequency information, explicitly calculate interval
         # sizes. Length of each interval calculated by using 'int64' to convert
         # to nanoseconds.
-        hours = pd.Series(series.index.view('int64') / (10.0**9 * 3600.0))
+        hours = pd.Series(_nanoseconds(series.index) / (10.0**9 * 3600.0))
         hours.index = series.index
         deltas = hours.diff()
     else:
@@ -205,8 +205,9 @@ def _delta_index(series):
         # a meaningful interval for the first element of the timeseries
         # Length of each interval calculated by using 'int64' to convert to
         # nanoseconds.
-        deltas = (series.index - series.index.shift(-1)).view('int64') / \
-                 (10.0**9 * 3600.0)
+        deltas = series.index - series.index.shift(-1)
+        deltas = deltas.values.astype('timedelta64[ns]').view('int64') / \
+            (10.0**9 * 3600.0)
     return deltas, np.mean(deltas[~np.isnan(deltas)])
 
 
@@ -338,6 +339,14 @@ def _check_series_frequency(series, series_description):
 check_series_frequency = deprecated('2.0.0', removal='3.0.0')(_check_series_frequency)
 
 
+def _nanoseconds(index):
+    '''
+    return the time stamps of a DatetimeIndex in nanoseconds since the epoch,
+    whatever the resolution of the index
+    '''
+    return index.values.astype('datetime64[ns]').view('int64')
+
+
 def _t_step_nanoseconds(time_series):
     '''
     return a series of right labeled differences in the index of time_series
@@ -386,6 +395,10 @@ def energy_from_power(power, target_frequency=None, max_timedelta=None,
         raise ValueError('power must be a pandas series with a '
                          'DatetimeIndex')
 
+    # the time steps below are computed in nanoseconds
+    if getattr(power.index, 'unit', 'ns') != 'ns':
+        power = power.set_axis(power.index.as_unit('ns'))
+
     if len(power) <= 1:
         # just one value, doesn't make sense to interpolate or trapz aggregate.
         # use the index frequency to determine the appropriate timescale
@@ -576,7 +589,7 @@ def _interpolate_series(time_series, target_index, max_timedelta=None,
     df = df.dropna()
 
     # convert to integer index and calculate the size of gaps in input
-    timestamps = df.index.view("int64").copy()
+    timestamps = _nanoseconds(df.index).copy()
     df["timestamp"] = timestamps
     df["gapsize_ns"] = df["timestamp"].diff()
     df.index = timestamps
@@ -596,7 +609,7 @@ def _interpolate_series(time_series, target_index, max_timedelta=None,
                       UserWarning)
 
     # put data on index that includes both original and target indicies
-    target_timestamps = pd.Index(target_index.view('int64'))
+    target_timestamps = pd.Index(_nanoseconds(target_index))
     union_index = df.index.append(target_timestamps)
     union_index = union_index.drop_duplicates(keep='first')
     df = df.reindex(union_index)
-- 
2.43.0


From f1c789ed6a3563abf14f20304607851da0f54241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:12 +0000
Subject: [PATCH 37/39] fix: window filters returned extra stamps for time
 stamps at another resolution than nanoseconds

The forward median was on the reversed index; bring it back into order
instead of relying on pandas to align two regular indexes.
---
 rdtools/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 20658d9..97fbfc6 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -954,7 +954,7 @@ def two_way_window_filter(
     backward_median = series.rolling(roll_period, min_periods=5, closed="both").median()
     forward_median = (
         series.loc[::-1].rolling(roll_period, min_periods=5, closed="both").median()
-    )
+    ).iloc[::-1]
 
     backward_dif = abs(series - backward_median)
     forward_dif = abs(series - forward_median)
@@ -1063,7 +1063,7 @@ def directional_tukey_filter(series, roll_period=pd.to_timedelta("7 Days"), k=1.
     backward_median = series.rolling(roll_period, min_periods=5, closed="both").median()
     forward_median = (
         series.loc[::-1].rolling(roll_period, min_periods=5, closed="both").median()
-    )
+    ).iloc[::-1]
     backward_dif = series - backward_median
     forward_dif = series - forward_median
 
-- 
2.43.0


From 7e8c715a02973fd7f6afd6d2ed06b4e3f00aed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:12 +0000
Subject: [PATCH 38/39] fix: logic clipping filter failed for an index named
 "value"

---
 rdtools/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 97fbfc6..bad926d 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -415,7 +415,7 @@ def _format_clipping_time_series(power_ac, mounting_type):
     column_name = "value"
     power_ac = power_ac.rename(column_name)
     index_name = power_ac.index.name
-    if index_name is None:
+    if index_name is None or index_name == column_name:
         index_name = "datetime"
         power_ac = power_ac.rename_axis(index_name)
     return power_ac, power_ac.index.name
-- 
2.43.0


From 31dd6053bd9c8ee2cfbe02f4bdc779e8d66790de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:42 +0000
Subject: [PATCH 39/39] fix: classifier-based clipping filter failed for an
 index named "date"

---
 rdtools/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index bad926d..df78dcd 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -746,7 +746,7 @@ def _calculate_xgboost_model_features(df, sampling_frequency):
     )
     # Get the max value for the day and see how each value compares
     df["date"] = list(pd.to_datetime(pd.Series(df.index)).dt.date)
-    df["daily_max"] = df.groupby(["date"])["scaled_value"].transform("max")
+    df["daily_max"] = df.groupby(df["date"])["scaled_value"].transform("max")
 
     # Get percentage of daily max
     df["percent_daily_max"] = df["scaled_value"] / (df["daily_max"] + 0.00001)
-- 
2.43.0

