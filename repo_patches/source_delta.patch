From b003120433150ba7abd34de71112417364ba831d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:03:51 +0000
Subject: [PATCH 01/43] fix: rebuild the platform index of a Deck, which sort
 and pop left stale

---
 Extended_IMMA.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index cf41372..c2e4b66 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2944,6 +2944,7 @@ class Deck:
         get_one_platform_at_a_time to yield a bunch of objects of class :class:`.Voyage` 
         corresponding to all obs from a single ID.
         """
+        self.idtracker = {}
         for i, rep in enumerate(self.reps):
             if rep.getvar('ID') in self.idtracker:
                 self.idtracker[rep.getvar('ID')].append(i)
@@ -3124,6 +3125,8 @@ class Deck:
         :return: Yields a :class:`.Voyage` made of all ships with a single ID. 
         :rtype: :class:`.Voyage`
         """
+        # sorting or popping moves the reports, so the index is rebuilt here
+        self.index_by_id()
         for one_id in self.idtracker:
             out_voyage = Voyage()
             for i in self.idtracker[one_id]:
-- 
2.43.0


From 85cbd9bbc8b64cf09e7b35e3a63ded05e463bf28 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:10:01 +0000
Subject: [PATCH 02/43] fix: update the date-time of a report when its month is
 changed

---
 Extended_IMMA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index c2e4b66..4b4067c 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -659,7 +659,7 @@ class MarineReport:
             i = VARLIST.index(varname)
             self.data[i] = varvalue
 
-        if varname in ['YR', 'DY', 'HR']:
+        if varname in ['YR', 'MO', 'DY', 'HR']:
             self.calculate_dt()
 
     def getvar(self, varname):
-- 
2.43.0


From 36c27dffc21008306f9e980f1550cc2fbaf9cd30 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:10:01 +0000
Subject: [PATCH 03/43] fix: give a report with an impossible date or hour no
 date-time instead of raising

---
 Extended_IMMA.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 4b4067c..f6a7444 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -456,13 +456,17 @@ class MarineReport:
     def calculate_dt(self):
         """
         Used to set the internal julian day time in the marine report. This might need to be 
-        updated if any of the time variables are changed.
+        updated if any of the time variables are changed. There is no time if any of them is missing
+        or if they do not give a real date and time of day.
         """
         if self.getvar('YR') is not None:
             mlen = qc.get_month_lengths(self.getvar('YR'))
             if (self.getvar('MO') is not None and
                     self.getvar('HR') is not None and
                     self.getvar('DY') is not None and
+                    1 <= self.getvar('YR') <= 9999 and
+                    1 <= self.getvar('MO') <= 12 and
+                    0 <= self.getvar('HR') < 24 and
                     0 < self.getvar('DY') <= mlen[self.getvar('MO') - 1]):
                 rounded_hour = int(math.floor(self.getvar('HR')))
                 rounded_minute = int(math.floor(60 *
-- 
2.43.0


From cfd710b8658603af831de4a9796ed911aeafed77 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:12:10 +0000
Subject: [PATCH 04/43] fix: clear the derived values of the first report when
 a Voyage is sorted

---
 Extended_IMMA.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index f6a7444..bc272aa 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -1592,6 +1592,11 @@ class Voyage:
         """
         self.reps.sort()
         # then recalculate times, speeds etc.
+        if len(self.reps) > 0:
+            self.reps[0].setext('speed', None)
+            self.reps[0].setext('course', None)
+            self.reps[0].setext('distance', None)
+            self.reps[0].setext('time_diff', None)
         if len(self.reps) > 1:
             for i in range(1, len(self.reps)):
                 shpspd, shpdis, shpdir, tdiff = self.reps[i] - self.reps[i - 1]
-- 
2.43.0


From 700773cbd4319c3fa002929edd628ba6288d73b1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:15:26 +0000
Subject: [PATCH 05/43] fix: flag dates with a month above 12 instead of
 raising

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index e623387..c44cd73 100644
--- a/qc.py
+++ b/qc.py
@@ -908,7 +908,7 @@ def date_check(inyear, inmonth, inday):
     if inday is None:
         result = 1
     else:
-        if inday < 1 or inday > month_lengths[inmonth - 1]:
+        if 1 <= inmonth <= 12 and (inday < 1 or inday > month_lengths[inmonth - 1]):
             result = 1
 
     return result
-- 
2.43.0


From aa751e4e8425ed37a3af0db2d11cfb2d4ef71393 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:15:26 +0000
Subject: [PATCH 06/43] fix: month 0 has no season

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index c44cd73..4c04e2a 100644
--- a/qc.py
+++ b/qc.py
@@ -51,7 +51,7 @@ def season(month):
     :return: DJF, MAM, JJA, or SON or None if the input month is non-existent (e.g. 13)
     :rtype: string
     """
-    if month < 0 or month > 12:
+    if month < 1 or month > 12:
         return None
     ssnlist = ['DJF', 'DJF',
                'MAM', 'MAM', 'MAM',
-- 
2.43.0


From 0f6c435c4b3c5776ee3df0372dcea7f684224ba4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:20:42 +0000
Subject: [PATCH 07/43] fix: test the relative humidity against its limits
 under the name it is held by

---
 Extended_IMMA.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index bc272aa..2823c13 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -1120,8 +1120,9 @@ class MarineReportQC(MarineReport):
         # special check for silly values in all humidity-related variables
         # and set DPT hardlimit flag if necessary
         self.set_qc('DPT', 'hardlimit', 0)
-        for var in ['AT', 'DPT', 'SHU', 'RH']:
-            if qc.hard_limit(self.getvar(var), parameters[var]['hard_limits']) == 1:
+        # (relative humidity is held under the name CRH)
+        for var, limits in [('AT', 'AT'), ('DPT', 'DPT'), ('SHU', 'SHU'), ('CRH', 'RH')]:
+            if qc.hard_limit(self.getvar(var), parameters[limits]['hard_limits']) == 1:
                 self.set_qc('DPT', 'hardlimit', 1)
 
         self.do_kate_mat_qc(parameters['AT'])
-- 
2.43.0


From 18e2f34e3b7f5c2db178d34eececfe21c45807bd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:20:49 +0000
Subject: [PATCH 08/43] fix: make DAT a known variable, which the day air
 temperature checks set flags on

---
 Extended_IMMA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 2823c13..b282a68 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -18,7 +18,7 @@ import trackqc as tqc
 import CalcHums
 
 VARLIST = ['YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'DS', 'VS', 'SLP', 'AT', 'AT2', 'SST', 'DCK', 'PT', 'SID', 'DPT',
-           'SHU', 'VAP', 'CRH', 'CWB', 'DPD', 'W', 'WI','D', 'DI', 'WW']
+           'SHU', 'VAP', 'CRH', 'CWB', 'DPD', 'W', 'WI','D', 'DI', 'WW', 'DAT']
 
 
 def safe_filename(infilename):
-- 
2.43.0


From f8d19ed9d29f7140cb7c6c2d9d05966fe58273e4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:25:17 +0000
Subject: [PATCH 09/43] fix: give the grid points around 89.5S a box of
 non-zero height

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index 4c04e2a..0ca1888 100644
--- a/qc.py
+++ b/qc.py
@@ -386,7 +386,7 @@ def get_four_surrounding_points(lat, lon, max90=1):
         if max90 == 0:
             y2 = 90.5
 
-    if lat - 0.5 >= -90:
+    if lat - 0.5 > -90:
         y1_index = lat_to_yindex(lat - 0.5)
         y1 = yindex_to_lat(y1_index)
     else:
-- 
2.43.0


From fc2d9bc6170fca61d529ddbbc51e3a87fc8ea2ec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:25:25 +0000
Subject: [PATCH 10/43] fix: drop the level dimension of a climatology before
 turning its latitudes and longitudes

---
 Climatology.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Climatology.py b/Climatology.py
index 4aaea5f..20f26a2 100644
--- a/Climatology.py
+++ b/Climatology.py
@@ -53,6 +53,9 @@ class Climatology:
 
             climatology.close()
 
+            if field.ndim == 4:
+                field = field[:, 0, :, :]
+
             # transpose the fields if the second axis is longitude
             if (field.shape[0] == 1 and
                     field.shape[1] == 360 and
@@ -69,9 +72,6 @@ class Climatology:
                 lon_len = field.shape[2]
                 field = np.roll(field, lon_len / 2, axis=2)
 
-            if field.ndim == 4:
-                field = field[:, 0, :, :]
-
         else:
             field = np.ma.array(np.zeros((1, 180 * 20, 360 * 20)), mask=True)
 
-- 
2.43.0


From 0441675aadf71583b70068fee72e598ba40b8f78 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:30:09 +0000
Subject: [PATCH 11/43] fix: look up single fields as far across the dateline
 as pentad fields, which interpolation needs

---
 qc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qc.py b/qc.py
index 0ca1888..88cc2a0 100644
--- a/qc.py
+++ b/qc.py
@@ -502,8 +502,8 @@ def get_sst_single_field(lat, lon, sst):
     """
     assert lat >= -90.0
     assert lat <= 90.0
-    assert lon >= -180.00
-    assert lon <= 360.00
+    assert lon >= -185.00
+    assert lon <= 365.00
 
     # read sst from grid
     yindex = lat_to_yindex(lat)
-- 
2.43.0


From e9927f3100531285eff00dd6725fecf2d53119e5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:31:44 +0000
Subject: [PATCH 12/43] fix: take each neighbour of a buddy cell once, and none
 from the opposite pole

---
 Extended_IMMA.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index b282a68..e1ee208 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2618,15 +2618,23 @@ class Np_Super_Ob:
         temp_anom = []
         temp_nobs = []
 
-        for xpt in range(-1 * full_xspan, full_xspan + 1):
+        # next to the poles the span reaches all the way round: take each column once
+        xpts = range(-1 * full_xspan, full_xspan + 1)
+        if len(xpts) > 360:
+            xpts = range(-180, 180)
+
+        for xpt in xpts:
             for ypt in range(-1 * yspan, yspan + 1):
+                # there is nothing beyond the poles
+                if not 0 <= yindex + ypt < 180:
+                    continue
                 for ppt in range(-1 * pspan, pspan + 1):
 
                     if xpt == 0 and ypt == 0 and ppt == 0:
                         continue
 
                     thisxx = (xindex + xpt) % 360
-                    thisyy = (yindex + ypt) % 180
+                    thisyy = yindex + ypt
                     thispp = (pindex + ppt) % 73
 
                     if self.nobs[thisxx][thisyy][thispp] != 0:
-- 
2.43.0


From b25e4ac0be123851d64047536939c305e80c10f9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:20:47 +0000
Subject: [PATCH 13/43] fix: sun position counts the leap days before 1980 as
 the calendar does [C20]

---
 qc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index 88cc2a0..5a51833 100644
--- a/qc.py
+++ b/qc.py
@@ -1105,7 +1105,7 @@ def sunangle(year, day, hour, minute, sec, zone, dasvtm, lat, lon):
     # Find number of whole years since end of 1979 (reference point)
     delyear = (year - 1980)  #
     # Find leap year correction
-    leap = math.floor(delyear / 4.)
+    leap = int(delyear / 4.)
     # Find time in whole hours since midnight (allow for "daylight saving").
     time_in_hours = hour + (minute + sec / 60.) / 60. + zone - dasvtm
     # Find time in whole days since start of January 1980
@@ -1115,6 +1115,9 @@ def sunangle(year, day, hour, minute, sec, zone, dasvtm, lat, lon):
         time = time - 1.0
     if delyear < 0 and delyear != leap * 4.0:
         time = time - 1.0
+    # 1900 was not a leap year
+    if year <= 1900:
+        time = time + 1.0
     # Find position of sun in celestial sphere, assuming circular orbit (radians).
     theta = (360.0 * time / 365.25) * degrad
     # Corrections for elliptical orbit
-- 
2.43.0


From 67180fa03b0c6f0095addcd8cfb58a0834aa504e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:22:18 +0000
Subject: [PATCH 14/43] fix: sun azimuth on and south of the equator [C20]

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index 5a51833..65a1a2a 100644
--- a/qc.py
+++ b/qc.py
@@ -1203,7 +1203,7 @@ def sunangle(year, day, hour, minute, sec, zone, dasvtm, lat, lon):
         # WAS . . .
         # a = ASIN (COS (declination) * SIN (h) / COS (e)) / degrad  ! Azimuth is degrees
         # Wrap around beyond -180 to 180
-        if math.sin(elevation) < math.sin(declination) / math.sin(phi):
+        if math.sin(elevation) * math.sin(phi) < math.sin(declination):
             if azimuth < 0:
                 azimuth = azimuth + 360.0
             azimuth = 180.0 - azimuth
-- 
2.43.0


From a92a006391328e4b52ab57670bd438f4d8125ccc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:44:45 +0000
Subject: [PATCH 15/43] fix: aground checks smooth longitudes across the
 dateline [C21]

---
 trackqc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trackqc.py b/trackqc.py
index 176f1c0..75c1be4 100644
--- a/trackqc.py
+++ b/trackqc.py
@@ -221,6 +221,10 @@ def aground_check(reps, smooth_win=41, min_win_period=8, max_win_period=10):
 
     hrs = np.cumsum(hrs)  # get time difference in hours relative to first report
 
+    # longitudes must not jump where a drifter crosses the dateline (or Greenwich) or they can't be smoothed
+    for ind in range(1, nrep):
+        lon[ind] -= 360. * np.round((lon[ind] - lon[ind - 1]) / 360.)
+
     # create smoothed lon/lat timeseries
     nrep_smooth = nrep - smooth_win + 1  # length of series after smoothing
     lon_smooth = np.empty(nrep_smooth)
@@ -364,6 +368,10 @@ def new_aground_check(reps, smooth_win=41, min_win_period=8):
 
     hrs = np.cumsum(hrs)  # get time difference in hours relative to first report
 
+    # longitudes must not jump where a drifter crosses the dateline (or Greenwich) or they can't be smoothed
+    for ind in range(1, nrep):
+        lon[ind] -= 360. * np.round((lon[ind] - lon[ind - 1]) / 360.)
+
     # create smoothed lon/lat timeseries
     nrep_smooth = nrep - smooth_win + 1  # length of series after smoothing
     lon_smooth = np.empty(nrep_smooth)
-- 
2.43.0


From 38b3e54da71a2bb474e90a57b672efb15295bf2e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:07:23 +0000
Subject: [PATCH 16/43] fix: chunks before the first silence are found for gaps
 of more than ten months

---
 YMCounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/YMCounter.py b/YMCounter.py
index 5c7a632..46bca0d 100644
--- a/YMCounter.py
+++ b/YMCounter.py
@@ -25,7 +25,7 @@ class YMCounter:
 
         starts = []
         ends = []
-        zeros = 10
+        zeros = gap
         lastdata = -1
 
         for i in range(0, self.n):
-- 
2.43.0


From 35491b8e47c6f70c5f9950b724544d0a20c6fc2d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:09:33 +0000
Subject: [PATCH 17/43] fix: the tracking driver submits drifters whose
 identifier has a slash or a space

---
 Tracking_QC_wrapper.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index 2c787e4..bd451b1 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -5,6 +5,7 @@ import sys
 import os
 import subprocess
 import qc
+import Extended_IMMA as ex
 import YMCounter as ym
 import json
 
@@ -71,10 +72,11 @@ def write_submission(config, targetid, yr1, mn1, yr2, mn2, edge, runmonthid, out
 
     codedir = '/net/home/h04/hadjj/PyWorkspace/Marine_QC/'
 
-    fname = 'Tracking_job_{}_{}{:02}_{}{:02}_{}_{}'.format(targetid.replace(" ", ""),
-                                                           yr1, mn1, yr2, mn2, runmonthid, runid)
+    safeid = ex.safe_filename(targetid.replace(" ", ""))
 
-    options = {'id': targetid, 'config': config,
+    fname = 'Tracking_job_{}_{}{:02}_{}{:02}_{}_{}'.format(safeid, yr1, mn1, yr2, mn2, runmonthid, runid)
+
+    options = {'id': '"' + targetid + '"', 'config': config,
                'yr1': yr1, 'mn1': mn1, 'yr2': yr2, 'mn2': mn2,
                'edge': " ".join(edge), 'runmonthid': runmonthid}
 
@@ -94,13 +96,11 @@ def write_submission(config, targetid, yr1, mn1, yr2, mn2, edge, runmonthid, out
     outfile.write("#!/bin/bash -l\n")
     outfile.write("#SBATCH --mem=8000\n")
     outfile.write("#SBATCH --ntasks=1\n")
-    outfile.write("#SBATCH --output={}/SPICE_trackqc_errout{}{:02}{}_{}\n".format(logdir, yr2, mn2,
-                                                                                  targetid.replace(" ", ""), runid))
+    outfile.write("#SBATCH --output={}/SPICE_trackqc_errout{}{:02}{}_{}\n".format(logdir, yr2, mn2, safeid, runid))
     outfile.write("#SBATCH --time=30\n")
     outfile.write("\n")
     outfile.write("module load scitools/default_legacy-current\n")
-    outfile.write(command + " > {}/SPICE_trackqc_genout{}{:02}{}_{}\n".format(logdir, yr2, mn2,
-                                                                              targetid.replace(" ", ""), runid))
+    outfile.write(command + " > {}/SPICE_trackqc_genout{}{:02}{}_{}\n".format(logdir, yr2, mn2, safeid, runid))
 
     outfile.close()
 
-- 
2.43.0


From f70439706dceca0b36a07f0b8b1d48ed553dd999 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:11:03 +0000
Subject: [PATCH 18/43] fix: noend leaves out chunks that touch the start and
 the end of the months read

---
 Tracking_QC_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index bd451b1..c843750 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -241,7 +241,7 @@ def main(argv):
                     print('Ignore', yy1, mm1, yy2, mm2, cl)
 
             if edge == 'noend':
-                if 'regular' in cl or 'start_edge_case' in cl:
+                if 'end_edge_case' not in cl:
                     print('Submit', yy1, mm1, yy2, mm2, cl)
                     write_submission(inputfile, targetid, yy1, mm1, yy2, mm2, cl,
                                      runmonthid, track_out_dir, parameters['runid'])
-- 
2.43.0


From 45f9ec51e1dd470c2d3342afb7dd3b70e1d7035f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:16:13 +0000
Subject: [PATCH 19/43] fix: negative values of an IMMA record are written to
 the nearest unit

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index c17a47b..ab03e82 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -137,7 +137,7 @@ class IMMA:
                 # Scale to integer units for output
                 if ( definitions[parameters[i]][5] != None ):
                     Tmp /= definitions[parameters[i]][5];
-                    Tmp = int(Tmp+0.5)  # nint
+                    Tmp = int(round(Tmp))  # nint
 
                 # Encode as base36 if required
                 if ( definitions[parameters[i]][6] == 2 ):
-- 
2.43.0


From eeec20316c53f4d5ffd3e1b5b57ec2ed4e40ea40 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:16:21 +0000
Subject: [PATCH 20/43] fix: the supplemental attachment is read without its
 own header

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index ab03e82..92d1fce 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -69,7 +69,7 @@ class IMMA:
                     Length = int(Length)
                     if ( Length != 0 ):
                         Length = int(Length)-4
-                        line = line[4:len(line)]
+                line = line[4:len(line)]
                 if(getAttachment(Attachment)==None ):
                     raise("Bad IMMA string","Unsupported attachment ID "+Attachment)
 
-- 
2.43.0


From 8eae5213101ef4db7f9eb237221d953021432365 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 21/43] fix: a last attachment that is blank is read as missing
 values

---
 IMMA1.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/IMMA1.py b/IMMA1.py
index 92d1fce..c364bc3 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -40,7 +40,8 @@ class IMMA:
         Length     = 108;
 
     # Decode each attachment
-        while ( len(line) > 0 ):
+        More = len(line) > 0
+        while ( More ):
 
             # Pad the string with blanks if it's too short
             if ( Length != None and Length > 0 and len(line) < Length ):
@@ -57,7 +58,8 @@ class IMMA:
             if ( Length==None or Length == 0 ):
                 break
             line = line[Length:len(line)]
-            if ( len(line) > 0 ):
+            More = len(line) > 0
+            if ( More ):
                 Attachment = int(line[0:2])
                 if Attachment == 8:
                     Length = "102" # Ugly!
@@ -109,7 +111,7 @@ class IMMA:
                 Position = len(as_string)
 
         # Blanks mean value is undefined
-            if self[p].isspace():
+            if self[p].strip() == '':
                 self[p] = None
                 continue    #  Next parameter
 
-- 
2.43.0


From a9af52d6d034500eb64dba0c6fca1c88eca45601 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:16:38 +0000
Subject: [PATCH 22/43] fix: the length of the ocean attachment is written in
 two digits

---
 IMMA1.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index c364bc3..e3c715b 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -178,7 +178,10 @@ class IMMA:
     # (except for core)
         if ( attachment != 0 ):
             if ( attachment != 99 ):
-                Result = "%2d%2d%s" % (attachment, len(Result) + 4, Result)
+                Length = len(Result) + 4
+                if ( Length > 99 ):     # Two base36 digits
+                    Length = encode_base36(Length // 36) + encode_base36(Length % 36)
+                Result = "%2d%2s%s" % (attachment, Length, Result)
             else:
                 Result = "%2d 0%s" % (attachment, Result)
 
-- 
2.43.0


From e46accfcfdde7875c620ea939e0242d8c2034434 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:16:45 +0000
Subject: [PATCH 23/43] fix: the error attachment can be read

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index e3c715b..ac11bcf 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -788,7 +788,7 @@ definitions['97'] = {
      'ICNE' : (    2,        0.,       99.,  None,  None,    1.,  1 ),
      'FNE'  : (    2,        1.,       99.,  None,  None,    1.,  1 ),
      'CEF'  : (    1,        0.,        1.,  None,  None,    1.,  1 ),
-     'ERRD' : ( None,      None,      None,  None,  None,  None,  1 ), # Inherited from ICNE and FNE
+     'ERRD' : (   10,      None,      None,  None,  None,  None,  1 ), # Inherited from ICNE and FNE
      'ARCE' : (    4,      None,      None,  None,  None,  None,  3 ),
      'CDE'  : (    8, 20140101., 29991231.,  None,  None,    1.,  1 ), # ISO 8601 date
      'ASIE' : (    1,        0.,        1.,  None,  None,    1.,  1 )
-- 
2.43.0


From 6220f84da707832053abcc9ff6906d9d299ebc7a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:16:54 +0000
Subject: [PATCH 24/43] fix: the two creation dates of a record do not
 overwrite each other

---
 IMMA1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMMA1.py b/IMMA1.py
index ac11bcf..b136c74 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -756,7 +756,7 @@ parameters['96'] = ('ICNI','FNI','JVAD','VAD',
                     'IVAU1','JVAU1','VAU1',
                     'IVAU2','JVAU2','VAU2',
                     'IVAU3','JVAU3','VAU3',
-                    'VQC','ARCI','CDR','ASII')
+                    'VQC','ARCI','CDI','ASII')
 
 definitions['96'] = {
     'ICNI'  : ( 2,        0.,       99.,  None,  None,    1.,  1 ),
@@ -774,7 +774,7 @@ definitions['96'] = {
     'VAU3'  : ( 6,   -99999.,   999999.,  None,  None,    1.,  1 ),
     'VQC'   : ( 1,        1.,        9.,  None,  None,    1.,  1 ),
     'ARCI'  : ( 4,      None,      None,  None,  None,  None,  3 ),
-    'CDR'   : ( 8, 20140101., 29991231.,  None,  None,    1.,  1 ), # ISO 8601 date
+    'CDI'   : ( 8, 20140101., 29991231.,  None,  None,    1.,  1 ), # ISO 8601 date
     'ASII'  : ( 1,        0.,        1.,  None,  None,    1.,  1 )
 }
                  
-- 
2.43.0


From a9e60c6801f104b301edb9cb424569e5b7c1fd28 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:17:02 +0000
Subject: [PATCH 25/43] fix: salinity of the ocean attachment is in thousandths
 as its range says

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index b136c74..48d29ae 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -678,7 +678,7 @@ parameters['08'] = ('OTV','OTZ','OSV','OSZ','OOV','OOZ','OPV','OPZ','OSIV','OSIZ
 definitions['08'] = {
     'OTV'  : (  5,  -3.,  38.999,  None,  None,  0.001,  1 ),
     'OTZ'  : (  4,   0.,   99.99,  None,  None,   0.01,  1 ),
-    'OSV'  : (  5,   0.,  40.999,  None,  None,   0.01,  1 ),
+    'OSV'  : (  5,   0.,  40.999,  None,  None,  0.001,  1 ),
     'OSZ'  : (  4,   0.,   99.99,  None,  None,   0.01,  1 ),
     'OOV'  : (  4,   0.,   12.99,  None,  None,   0.01,  1 ),
     'OOZ'  : (  4,   0.,   99.99,  None,  None,   0.01,  1 ),
-- 
2.43.0


From 25f857f908f8ccbedddc6f72ff8ba79f3bd2bfa4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:17:08 +0000
Subject: [PATCH 26/43] fix: the national use character of attachment 5 can be
 written

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index 48d29ae..bad7c71 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -564,7 +564,7 @@ definitions['05'] = {
     'IR'    : ( 1,   0.,       4.,   None,  None,  1.,  1 ),
     'RRR'   : ( 3,   0.,     999.,   None,  None,  1.,  1 ),
     'TR'    : ( 1,   1.,       9.,   None,  None,  1.,  1 ),
-    'NU'    : ( 1, None,     None,   None,  None,  1.,  3 ),
+    'NU'    : ( 1, None,     None,   None,  None,  None,  3 ),
     'QCI'   : ( 1,   0.,       9.,   None,  None,  1.,  1 ),
     'QI1'   : ( 1,   0.,       9.,   None,  None,  1.,  1 ),
     'QI2'   : ( 1,   0.,       9.,   None,  None,  1.,  1 ),
-- 
2.43.0


From 478539c6bd713dd9468fc467d937325f3dc625a7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:18:08 +0000
Subject: [PATCH 27/43] fix: an attachment shorter than its table does not read
 from the next one

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index bad7c71..422f57c 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -49,7 +49,7 @@ class IMMA:
                 line += sfmt % " "
 
             self.decode(
-                line,
+                line[:Length] if Length else line,
                 getAttachment(Attachment),
                 getParameters(Attachment),
                 getDefinitions(Attachment)
-- 
2.43.0


From 4e66ca34d7b5151ced6fbb3e8f414a78308169c8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:45:01 +0000
Subject: [PATCH 28/43] fix: longitudes reached going west across the dateline
 are between -180 and 180

---
 spherical_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_geometry.py b/spherical_geometry.py
index 07b2240..582a78d 100644
--- a/spherical_geometry.py
+++ b/spherical_geometry.py
@@ -100,7 +100,7 @@ def lat_lon_from_course_and_distance(lat1, lon1, tc, d):
 
     lat = np.arcsin(np.sin(lat1) * np.cos(dr) + np.cos(lat1) * np.sin(dr) * np.cos(tcr))
     dlon = np.arctan2(np.sin(tcr) * np.sin(dr) * np.cos(lat1), np.cos(dr) - np.sin(lat1) * np.sin(lat))
-    lon = math.fmod(lon1 + dlon + np.pi, 2. * np.pi) - np.pi
+    lon = (lon1 + dlon + np.pi) % (2. * np.pi) - np.pi
 
     lat = lat / radians_per_degree
     lon = lon / radians_per_degree
-- 
2.43.0


From a6b0ead2f9de28a4446708b8000073ef3cef8b64 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:45:41 +0000
Subject: [PATCH 29/43] fix: courses due south or north that rounding puts out
 of range are between 0 and 360 and on the right side

---
 spherical_geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spherical_geometry.py b/spherical_geometry.py
index 582a78d..0ba1860 100644
--- a/spherical_geometry.py
+++ b/spherical_geometry.py
@@ -159,9 +159,9 @@ def course_between_points(lat1, lon1, lat2, lon2):
                     tc1 = float('nan')
 
         if math.isnan(tc1):
-            tc1 = math.fmod(np.arctan2(np.sin(lon1 - lon2) * np.cos(lat2),
-                                       np.cos(lat1) * np.sin(lat2) - np.sin(lat1) * np.cos(lat2) * np.cos(lon1 - lon2)),
-                            2 * np.pi)
+            tc1 = np.arctan2(np.sin(lon2 - lon1) * np.cos(lat2),
+                             np.cos(lat1) * np.sin(lat2) - np.sin(lat1) * np.cos(lat2) * np.cos(lon2 - lon1))
+            tc1 = tc1 % (2. * np.pi)
 
     else:
 
-- 
2.43.0


From 6746cc31ee905e67e48b040be0ce3c275840ce0e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:55:31 +0000
Subject: [PATCH 30/43] fix: flags of a voyage are written under the safe form
 of its identifier, as its variables are

---
 Extended_IMMA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index e1ee208..4c7012a 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2454,8 +2454,9 @@ class Voyage:
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
+        safeid = safe_filename(self.reps[0].getvar('ID'))
         for var in allvarnames:
-            outfilename = var + '_qc_' + syr + smn + '_' + self.reps[0].getvar('ID') + '_' + runid + '.csv'
+            outfilename = var + '_qc_' + syr + smn + '_' + safeid + '_' + runid + '.csv'
             outfile = open(icoads_dir + '/' + outfilename, 'w')
             outfile.write(self.reps[0].print_qc_block(var, allvarnames[var], header=True))
             count_write = 0
-- 
2.43.0


From 050452e7cda942b40dda9f7a0b8f012abc7669b0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:03:53 +0000
Subject: [PATCH 31/43] fix: a compressed background field was unpacked from a
 file of twice the suffix, so that it came out empty

---
 BackgroundField.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BackgroundField.py b/BackgroundField.py
index 8835353..05c03e0 100644
--- a/BackgroundField.py
+++ b/BackgroundField.py
@@ -240,7 +240,7 @@ def get_background_filename(dirstubs, filenamestubs, year, month, day):
         if os.path.isfile(chosen_new):
             outfile = chosen_new
         else:
-            subprocess.call('bunzip2 -c ' + chosen_orig + '.bz2 > ' + chosen_new, shell=True)
+            subprocess.call('bunzip2 -c ' + chosen_orig + ' > ' + chosen_new, shell=True)
             outfile = chosen_new
 # if it's not bzipped then leave as is and read in place
     else:
-- 
2.43.0


From da9dbb897134d70a6e03a132b937f3dfdc9332ec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 32/43] fix: a background field that is only partly unpacked,
 by a run cut short or still at work, is never used

---
 BackgroundField.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/BackgroundField.py b/BackgroundField.py
index 05c03e0..cc046e1 100644
--- a/BackgroundField.py
+++ b/BackgroundField.py
@@ -236,12 +236,20 @@ def get_background_filename(dirstubs, filenamestubs, year, month, day):
     outfile = None
 
 # for bzipped files check to see if unzipped file exists
-    if '.bz2' in chosen_orig:
+    if chosen_orig.endswith('.bz2'):
         if os.path.isfile(chosen_new):
             outfile = chosen_new
         else:
-            subprocess.call('bunzip2 -c ' + chosen_orig + ' > ' + chosen_new, shell=True)
-            outfile = chosen_new
+            # only a whole field gets its final name: a run that is cut short, or another one that is still unpacking,
+            # must not leave a part of a field where it would be taken for the field
+            unpacking = '{}.{}'.format(chosen_new, os.getpid())
+            with open(unpacking, 'wb') as unpacked:
+                failed = subprocess.call(['bunzip2', '-c', chosen_orig], stdout=unpacked)
+            if failed:
+                os.remove(unpacking)
+            else:
+                os.rename(unpacking, chosen_new)
+                outfile = chosen_new
 # if it's not bzipped then leave as is and read in place
     else:
         outfile = chosen_orig
-- 
2.43.0


From d1c17e86c552b77719d2b5719927e65f4d87711c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:07:18 +0000
Subject: [PATCH 33/43] fix: packed background fields of the same name in
 different directories were taken for each other once one was unpacked

---
 BackgroundField.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/BackgroundField.py b/BackgroundField.py
index cc046e1..685e8a3 100644
--- a/BackgroundField.py
+++ b/BackgroundField.py
@@ -215,8 +215,10 @@ def get_background_filename(dirstubs, filenamestubs, year, month, day):
 
     for i, dirstub in enumerate(dirstubs):
         filenamestub = filenamestubs[i]
-        originalfilenames.append(make_filename(dirstub, filenamestub, year, month, day))
-        newfilenames.append(make_filename(scratch, filenamestub, year, month, day))
+        fname = make_filename(dirstub, filenamestub, year, month, day)
+        originalfilenames.append(fname)
+        # files of the same name in different directories are different fields, so the scratch folder keeps the directories
+        newfilenames.append(os.path.join(scratch, os.path.abspath(fname).lstrip(os.sep)))
 
 # find the first original file that exists in the list
     chosen_orig = None
@@ -243,6 +245,11 @@ def get_background_filename(dirstubs, filenamestubs, year, month, day):
             # only a whole field gets its final name: a run that is cut short, or another one that is still unpacking,
             # must not leave a part of a field where it would be taken for the field
             unpacking = '{}.{}'.format(chosen_new, os.getpid())
+            if not os.path.isdir(os.path.dirname(unpacking)):
+                try:
+                    os.makedirs(os.path.dirname(unpacking))
+                except OSError:
+                    print("Directory {} already exists".format(os.path.dirname(unpacking)))
             with open(unpacking, 'wb') as unpacked:
                 failed = subprocess.call(['bunzip2', '-c', chosen_orig], stdout=unpacked)
             if failed:
-- 
2.43.0


From 42d11f741c33333b60aaf4c3b00bace8627980ce Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:22:09 +0000
Subject: [PATCH 34/43] fix: a month without an ICOADS file ended the run
 instead of being passed over

---
 marine_qc.py            | 3 +++
 marine_qc_hires.py      | 3 +++
 marine_qc_track_only.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/marine_qc.py b/marine_qc.py
index c3c2f83..7568c88 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -149,6 +149,9 @@ def main(argv):
             filename = bf.icoads_filename_from_stub(parameters['icoads_dir'],
                                                     parameters['icoads_filenames'],
                                                     readyear, readmonth)
+            if filename is None:
+                print("no ICOADS file for {} {}".format(readyear, readmonth))
+                continue
             try:
                 icoads_file = gzip.open(filename, "r")
             except IOError:
diff --git a/marine_qc_hires.py b/marine_qc_hires.py
index f38094c..5318611 100755
--- a/marine_qc_hires.py
+++ b/marine_qc_hires.py
@@ -139,6 +139,9 @@ def main(argv):
             filename = bf.icoads_filename_from_stub(parameters['icoads_dir'],
                                                     parameters['icoads_filenames'],
                                                     readyear, readmonth)
+            if filename is None:
+                print("no ICOADS file for {} {}".format(readyear, readmonth))
+                continue
             try:
                 icoads_file = gzip.open(filename, "r")
             except IOError:
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index 6a013be..7545c73 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -143,6 +143,9 @@ def main(argv):
             filename = bf.icoads_filename_from_stub(parameters['icoads_dir'],
                                                     parameters['icoads_filenames'],
                                                     readyear, readmonth)
+            if filename is None:
+                print("no ICOADS file for {} {}".format(readyear, readmonth))
+                continue
             try:
                 icoads_file = gzip.open(filename, "r")
             except IOError:
-- 
2.43.0


From 6decb1a81a3545f0ab729b03e38eab241c8028f3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:22:19 +0000
Subject: [PATCH 35/43] fix: an unreadable or empty line of an ICOADS file
 ended the run instead of being rejected

---
 marine_qc.py            | 8 ++++----
 marine_qc_hires.py      | 8 ++++----
 marine_qc_track_only.py | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/marine_qc.py b/marine_qc.py
index 7568c88..263eca4 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -169,10 +169,10 @@ def main(argv):
                     readob = False
                     print("Rejected ob {}".format(line))
 
-                if (not (rec.data['ID'] in ids_to_exclude) and
-                        readob and
-                        rec.data['YR'] == readyear and
-                        rec.data['MO'] == readmonth):
+                if (readob and
+                        rec.data.get('YR') == readyear and
+                        rec.data.get('MO') == readmonth and
+                        not (rec.data['ID'] in ids_to_exclude)):
 
                     rep = ex.MarineReportQC(rec)
                     del rec
diff --git a/marine_qc_hires.py b/marine_qc_hires.py
index 5318611..0fc218d 100755
--- a/marine_qc_hires.py
+++ b/marine_qc_hires.py
@@ -159,10 +159,10 @@ def main(argv):
                     readob = False
                     print("Rejected ob {}".format(line))
 
-                if (not (rec.data['ID'] in ids_to_exclude) and
-                        readob and
-                        rec.data['YR'] == readyear and
-                        rec.data['MO'] == readmonth):
+                if (readob and
+                        rec.data.get('YR') == readyear and
+                        rec.data.get('MO') == readmonth and
+                        not (rec.data['ID'] in ids_to_exclude)):
 
                     rep = ex.MarineReportQC(rec)
                     del rec
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index 7545c73..c397adb 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -163,10 +163,10 @@ def main(argv):
                     readob = False
                     print("Rejected ob {}".format(line))
 
-                if (not (rec.data['ID'] in ids_to_exclude) and
-                        readob and
-                        rec.data['YR'] == readyear and
-                        rec.data['MO'] == readmonth):
+                if (readob and
+                        rec.data.get('YR') == readyear and
+                        rec.data.get('MO') == readmonth and
+                        not (rec.data['ID'] in ids_to_exclude)):
 
                     rep = ex.MarineReportQC(rec)
                     del rec
-- 
2.43.0


From 6624080f4b3bdf7d68df3d01193e5964052206ec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:23:28 +0000
Subject: [PATCH 36/43] fix: the background field of the last day read of a
 month was taken for the same day of the next month

---
 marine_qc.py            | 4 +++-
 marine_qc_track_only.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/marine_qc.py b/marine_qc.py
index 263eca4..f0ed05c 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -135,12 +135,14 @@ def main(argv):
 
         reps = ex.Deck()
         count = 0
-        lastday = -99
 
         for readyear, readmonth in qc.year_month_gen(last_year, last_month, next_year, next_month):
 
             print("{} {}".format(readyear, readmonth))
 
+            # the field of a day of the month before is not that of the same day of this one
+            lastday = -99
+
             ostia_bg_var = None
             if tracking:
                 ostia_bg_var = clim.Climatology.from_filename(
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index c397adb..cfb3485 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -129,12 +129,14 @@ def main(argv):
 
         reps = ex.Deck()
         count = 0
-        lastday = -99
 
         for readyear, readmonth in qc.year_month_gen(last_year, last_month, next_year, next_month):
 
             print("{} {}".format(readyear, readmonth))
 
+            # the field of a day of the month before is not that of the same day of this one
+            lastday = -99
+
             ostia_bg_var = None
             if tracking:
                 ostia_bg_var = clim.Climatology.from_filename(
-- 
2.43.0


From f2dff86f3997640bcb581091fa40c7eb02498601 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:23:38 +0000
Subject: [PATCH 37/43] fix: writing out a month ended the run when there was
 no report in it or its neighbours

---
 Extended_IMMA.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 4c7012a..220986a 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -3159,6 +3159,10 @@ class Deck:
         Write out QC flags for specified variable names from 
         the contents of the :class:`.Deck`.
         """
+        if len(self) == 0:
+            print("no obs to write out")
+            return
+
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
@@ -3185,6 +3189,10 @@ class Deck:
         """
         Write out the contents of the :class:`.Deck`.
         """
+        if len(self) == 0:
+            print("no obs to write out")
+            return
+
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
@@ -3229,6 +3237,10 @@ class Deck:
         """
         Write out the contents of the :class:`.Deck`.
         """
+        if len(self) == 0:
+            print("no obs to write out")
+            return
+
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
-- 
2.43.0


From 5504465a42d7d69edf0bbbb346bda8e3c8d7a5e8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:45:42 +0000
Subject: [PATCH 38/43] fix: a drifter whose identifier has a slash or an
 asterisk is found by the tracking QC

---
 tracking_qc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tracking_qc.py b/tracking_qc.py
index a475f68..fe66916 100644
--- a/tracking_qc.py
+++ b/tracking_qc.py
@@ -142,6 +142,8 @@ def main(argv):
     while len(target_id) < 9:
         target_id += ' '
 
+    safe_id = ex.safe_filename(target_id)  # input files are named after the safe form of the ID
+
     print('Running track QC for ID {}'.format(target_id))
     print('')
     print("Type of case: {}".format(edge[0]))
@@ -166,9 +168,9 @@ def main(argv):
         sm = "{:02}".format(month)
 
         # input data files
-        filename = "{0}/{1}/{2}/Variables_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, target_id, parameters['runid'])
-        posqc_filename = "{0}/{1}/{2}/POS_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, target_id, parameters['runid'])
-        sstqc_filename = "{0}/{1}/{2}/SST_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, target_id, parameters['runid'])
+        filename = "{0}/{1}/{2}/Variables_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, safe_id, parameters['runid'])
+        posqc_filename = "{0}/{1}/{2}/POS_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, safe_id, parameters['runid'])
+        sstqc_filename = "{0}/{1}/{2}/SST_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, safe_id, parameters['runid'])
 
         # check if any data exists for this month before continuing
         if not (os.path.isfile(filename) or
-- 
2.43.0


From 4703d0451ed1351a0751244357fa1a8964d51a8d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:46:00 +0000
Subject: [PATCH 39/43] fix: reports without a time do not keep the others of
 their platform from being sorted

---
 Extended_IMMA.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 220986a..76f55a5 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -518,14 +518,13 @@ class MarineReport:
     def __gt__(self, other):
         """
         One marine report is greater than another if its ID is higher in an alphabetical ordering. 
-        For reports with the same ID, the later report is the greater.
+        For reports with the same ID, the later report is the greater. Reports without a time come first.
         """
         if self.getvar('ID') > other.getvar('ID'):
             return True
         if (self.getvar('ID') == other.getvar('ID') and
                 self.dt is not None and
-                other.dt is not None and
-                self.dt > other.dt):
+                (other.dt is None or self.dt > other.dt)):
             return True
         else:
             return False
-- 
2.43.0


From 90e9df54c7b681b463dae345e810967acc416e50 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:48:38 +0000
Subject: [PATCH 40/43] fix: a report without a real date and time in a track
 does not end the run

---
 Extended_IMMA.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 76f55a5..9d86ad1 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -491,10 +491,12 @@ class MarineReport:
         distance = sph.sphere_distance(self.lat(), self.lon(),
                                        other.lat(), other.lon())
 
-        timediff = qc.time_difference(other.getvar('YR'), other.getvar('MO'),
-                                      other.getvar('DY'), other.getvar('HR'),
-                                      self.getvar('YR'), self.getvar('MO'),
-                                      self.getvar('DY'), self.getvar('HR'))
+        timediff = None
+        if self.dt is not None and other.dt is not None:
+            timediff = qc.time_difference(other.getvar('YR'), other.getvar('MO'),
+                                          other.getvar('DY'), other.getvar('HR'),
+                                          self.getvar('YR'), self.getvar('MO'),
+                                          self.getvar('DY'), self.getvar('HR'))
         if timediff != 0 and timediff is not None:
             speed = distance / timediff
         else:
-- 
2.43.0


From 4ce0d4499fca477315254687abf9c7f9d77af2e0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:28:22 +0000
Subject: [PATCH 41/43] fix: reports without a time can be compared by >= and
 <=

---
 Extended_IMMA.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 9d86ad1..5578409 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -534,28 +534,16 @@ class MarineReport:
     def __ge__(self, other):
         """
         One marine report is greater than another if its ID is higher in an alphabetical ordering. 
-        For reports with the same ID, the later report is the greater.
+        For reports with the same ID, the later report is the greater. Reports without a time come first.
         """
-        if self.getvar('ID') > other.getvar('ID'):
-            return True
-        if (self.getvar('ID') == other.getvar('ID') and
-                self.dt >= other.dt):
-            return True
-        else:
-            return False
+        return self > other or self == other
 
     def __le__(self, other):
         """
         One marine report is greater than another if its ID is higher in an alphabetical ordering. 
-        For reports with the same ID, the later report is the greater.
+        For reports with the same ID, the later report is the greater. Reports without a time come first.
         """
-        if self.getvar('ID') < other.getvar('ID'):
-            return True
-        if (self.getvar('ID') == other.getvar('ID') and
-                self.dt <= other.dt):
-            return True
-        else:
-            return False
+        return other > self or self == other
 
     def add_climate_variable(self, name, clim, stdev=None):
         """
-- 
2.43.0


From 954205296ccdfebd3f4dad29f2f60050631c7e7f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:57:30 +0000
Subject: [PATCH 42/43] fix: year_month_gen does not run on for ever when the
 end is before the start

---
 qc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qc.py b/qc.py
index 65a1a2a..aae3edf 100644
--- a/qc.py
+++ b/qc.py
@@ -1699,6 +1699,8 @@ def year_month_gen(year1, month1, year2, month2):
 
     assert year2 >= year1, "Start year after end year"
     assert 0 < month1 <= 12, "Month outside 1-12"
+    assert 0 < month2 <= 12, "Month outside 1-12"
+    assert year2 > year1 or month2 >= month1, "Start month after end month"
 
     year = year1
     month = month1
-- 
2.43.0


From 9b388e2c347cd2f70b2db287ab3ce5d1f8f67b7c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:55:31 +0000
Subject: [PATCH 43/43] fix: a journey that ends at a pole arrives there

---
 spherical_geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spherical_geometry.py b/spherical_geometry.py
index 0ba1860..810e145 100644
--- a/spherical_geometry.py
+++ b/spherical_geometry.py
@@ -98,7 +98,9 @@ def lat_lon_from_course_and_distance(lat1, lon1, tc, d):
 
     dr = d / earths_radius
 
-    lat = np.arcsin(np.sin(lat1) * np.cos(dr) + np.cos(lat1) * np.sin(dr) * np.cos(tcr))
+    # rounding can take the sine just beyond one at the poles
+    sin_lat = np.sin(lat1) * np.cos(dr) + np.cos(lat1) * np.sin(dr) * np.cos(tcr)
+    lat = np.arcsin(np.clip(sin_lat, -1.0, 1.0))
     dlon = np.arctan2(np.sin(tcr) * np.sin(dr) * np.cos(lat1), np.cos(dr) - np.sin(lat1) * np.sin(lat))
     lon = (lon1 + dlon + np.pi) % (2. * np.pi) - np.pi
 
-- 
2.43.0

