From 5852c8458a25cefe7f85464c44c8955bb48c7f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:47 +0000
Subject: [PATCH 01/26] fix: decompress the background file that exists, and
 complete it before naming it

get_background_filename added '.bz2' to a name that already ended in it, so
bunzip2 always failed and left an empty file in SCRATCH that every later run
took for the decompressed field. The exit status was not looked at, and a file
cut short by a kill, a full disk or a concurrent process was taken as complete.
---
 BackgroundField.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/BackgroundField.py b/BackgroundField.py
index 8835353..1af1fa6 100644
--- a/BackgroundField.py
+++ b/BackgroundField.py
@@ -4,6 +4,7 @@ changed in moving from one system to another.
 """
 
 import os
+import socket
 import subprocess
 
 
@@ -188,6 +189,28 @@ def make_filename(dirstub, filenamestub, year, month, day):
     return filename
 
 
+def decompress_to(infile, outfile):
+    """
+    Decompress infile to outfile. The decompressed data are written under a name that only this process uses, and get
+    their proper name when they are complete. A process that is killed part way through, or another that is working on
+    the same file, can't leave part of a file under the name outfile.
+
+    :param infile: name of the bzipped file
+    :param outfile: name to be given to the decompressed file
+    :return: None
+    """
+    partfile = '{}.{}.{}.part'.format(outfile, socket.gethostname(), os.getpid())
+
+    status = subprocess.call('bunzip2 -c ' + infile + ' > ' + partfile, shell=True)
+
+    if status != 0:
+        if os.path.isfile(partfile):
+            os.remove(partfile)
+        raise IOError('could not decompress ' + infile)
+
+    os.rename(partfile, outfile)
+
+
 def get_background_filename(dirstubs, filenamestubs, year, month, day):
     """
     Construct a background file filename. A background file is an OSTIA SST field used in the tracking_qc.py. The
@@ -240,7 +263,7 @@ def get_background_filename(dirstubs, filenamestubs, year, month, day):
         if os.path.isfile(chosen_new):
             outfile = chosen_new
         else:
-            subprocess.call('bunzip2 -c ' + chosen_orig + '.bz2 > ' + chosen_new, shell=True)
+            decompress_to(chosen_orig, chosen_new)
             outfile = chosen_new
 # if it's not bzipped then leave as is and read in place
     else:
-- 
2.43.0


From ebd804b8f37e0ca63d1d8be33074978d97a50103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:47 +0000
Subject: [PATCH 02/26] fix: go on to the next month when there is no ICOADS
 file for a month

icoads_filename_from_stub returns None for a month without a file, and
gzip.open(None) raises TypeError, which the IOError handler does not catch.
---
 marine_qc.py            | 4 ++++
 marine_qc_hires.py      | 4 ++++
 marine_qc_track_only.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/marine_qc.py b/marine_qc.py
index c3c2f83..8407052 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -149,6 +149,10 @@ def main(argv):
             filename = bf.icoads_filename_from_stub(parameters['icoads_dir'],
                                                     parameters['icoads_filenames'],
                                                     readyear, readmonth)
+            if filename is None:
+                print("no ICOADS file for {} {}".format(readyear, readmonth))
+                continue
+
             try:
                 icoads_file = gzip.open(filename, "r")
             except IOError:
diff --git a/marine_qc_hires.py b/marine_qc_hires.py
index f38094c..ca3ce2e 100755
--- a/marine_qc_hires.py
+++ b/marine_qc_hires.py
@@ -139,6 +139,10 @@ def main(argv):
             filename = bf.icoads_filename_from_stub(parameters['icoads_dir'],
                                                     parameters['icoads_filenames'],
                                                     readyear, readmonth)
+            if filename is None:
+                print("no ICOADS file for {} {}".format(readyear, readmonth))
+                continue
+
             try:
                 icoads_file = gzip.open(filename, "r")
             except IOError:
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index 6a013be..eb25d94 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -143,6 +143,10 @@ def main(argv):
             filename = bf.icoads_filename_from_stub(parameters['icoads_dir'],
                                                     parameters['icoads_filenames'],
                                                     readyear, readmonth)
+            if filename is None:
+                print("no ICOADS file for {} {}".format(readyear, readmonth))
+                continue
+
             try:
                 icoads_file = gzip.open(filename, "r")
             except IOError:
-- 
2.43.0


From caba747df278ae40ed366ed9e9ca3581a031f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:47 +0000
Subject: [PATCH 03/26] fix: stop when an ICOADS file exists but cannot be
 opened

An existing file that could not be opened (permissions, I/O error, too many
open files) was reported as absent and its month silently left out of the QC.
---
 marine_qc.py            | 6 +-----
 marine_qc_hires.py      | 6 +-----
 marine_qc_track_only.py | 6 +-----
 3 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/marine_qc.py b/marine_qc.py
index 8407052..9b03418 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -153,11 +153,7 @@ def main(argv):
                 print("no ICOADS file for {} {}".format(readyear, readmonth))
                 continue
 
-            try:
-                icoads_file = gzip.open(filename, "r")
-            except IOError:
-                print("no ICOADS file for {} {}".format(readyear, readmonth))
-                continue
+            icoads_file = gzip.open(filename, "r")
 
             rec = IMMA()
 
diff --git a/marine_qc_hires.py b/marine_qc_hires.py
index ca3ce2e..e3d4ba4 100755
--- a/marine_qc_hires.py
+++ b/marine_qc_hires.py
@@ -143,11 +143,7 @@ def main(argv):
                 print("no ICOADS file for {} {}".format(readyear, readmonth))
                 continue
 
-            try:
-                icoads_file = gzip.open(filename, "r")
-            except IOError:
-                print("no ICOADS file for {} {}".format(readyear, readmonth))
-                continue
+            icoads_file = gzip.open(filename, "r")
 
             rec = IMMA()
 
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index eb25d94..e5bb61c 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -147,11 +147,7 @@ def main(argv):
                 print("no ICOADS file for {} {}".format(readyear, readmonth))
                 continue
 
-            try:
-                icoads_file = gzip.open(filename, "r")
-            except IOError:
-                print("no ICOADS file for {} {}".format(readyear, readmonth))
-                continue
+            icoads_file = gzip.open(filename, "r")
 
             rec = IMMA()
 
-- 
2.43.0


From 11eab896efc9a6a23d8e3092e8eb641425f0d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:47 +0000
Subject: [PATCH 04/26] fix: leave out a record that could not be read before
 looking at its ID

The ID of a rejected record was looked up before readob was tested, so a line
that could not be decoded as far as its ID stopped the run with a KeyError.
---
 marine_qc.py            | 4 ++--
 marine_qc_hires.py      | 4 ++--
 marine_qc_track_only.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/marine_qc.py b/marine_qc.py
index 9b03418..8fb73b1 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -166,8 +166,8 @@ def main(argv):
                     readob = False
                     print("Rejected ob {}".format(line))
 
-                if (not (rec.data['ID'] in ids_to_exclude) and
-                        readob and
+                if (readob and
+                        not (rec.data['ID'] in ids_to_exclude) and
                         rec.data['YR'] == readyear and
                         rec.data['MO'] == readmonth):
 
diff --git a/marine_qc_hires.py b/marine_qc_hires.py
index e3d4ba4..5fc156a 100755
--- a/marine_qc_hires.py
+++ b/marine_qc_hires.py
@@ -156,8 +156,8 @@ def main(argv):
                     readob = False
                     print("Rejected ob {}".format(line))
 
-                if (not (rec.data['ID'] in ids_to_exclude) and
-                        readob and
+                if (readob and
+                        not (rec.data['ID'] in ids_to_exclude) and
                         rec.data['YR'] == readyear and
                         rec.data['MO'] == readmonth):
 
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index e5bb61c..3765e53 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -160,8 +160,8 @@ def main(argv):
                     readob = False
                     print("Rejected ob {}".format(line))
 
-                if (not (rec.data['ID'] in ids_to_exclude) and
-                        readob and
+                if (readob and
+                        not (rec.data['ID'] in ids_to_exclude) and
                         rec.data['YR'] == readyear and
                         rec.data['MO'] == readmonth):
 
-- 
2.43.0


From db5bf8b1dfad46f9f21e3bc77bba08af55cada7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:07 +0000
Subject: [PATCH 05/26] fix: read a new background field when the month changes
 but the day number does not

The day of the field in memory was kept from one month to the next, so that
reports on, say, 5 March were matched with the field for 5 February when the
February file ended on the 5th and the March file began on it.
---
 marine_qc.py            | 2 +-
 marine_qc_track_only.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marine_qc.py b/marine_qc.py
index 8fb73b1..48356a9 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -135,12 +135,12 @@ def main(argv):
 
         reps = ex.Deck()
         count = 0
-        lastday = -99
 
         for readyear, readmonth in qc.year_month_gen(last_year, last_month, next_year, next_month):
 
             print("{} {}".format(readyear, readmonth))
 
+            lastday = -99
             ostia_bg_var = None
             if tracking:
                 ostia_bg_var = clim.Climatology.from_filename(
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index 3765e53..da5b298 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -129,12 +129,12 @@ def main(argv):
 
         reps = ex.Deck()
         count = 0
-        lastday = -99
 
         for readyear, readmonth in qc.year_month_gen(last_year, last_month, next_year, next_month):
 
             print("{} {}".format(readyear, readmonth))
 
+            lastday = -99
             ostia_bg_var = None
             if tracking:
                 ostia_bg_var = clim.Climatology.from_filename(
-- 
2.43.0


From 497aa431b795ea02a85fa4bbcbd49242845094e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:07 +0000
Subject: [PATCH 06/26] fix: a report whose hour is not in the day has no time,
 rather than stopping the run

calculate_dt passed an hour outside 0 to 24 to datetime, which raised
ValueError before the time check could flag the report.
---
 Extended_IMMA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index cf41372..d0c4c3a 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -463,6 +463,7 @@ class MarineReport:
             if (self.getvar('MO') is not None and
                     self.getvar('HR') is not None and
                     self.getvar('DY') is not None and
+                    0 <= self.getvar('HR') < 24 and
                     0 < self.getvar('DY') <= mlen[self.getvar('MO') - 1]):
                 rounded_hour = int(math.floor(self.getvar('HR')))
                 rounded_minute = int(math.floor(60 *
-- 
2.43.0


From 61ef6c6404b499f87686d38fd678ff9c27612d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:37 +0000
Subject: [PATCH 07/26] fix: no climatological value, rather than an
 IndexError, off the globe

A report with a latitude or longitude that does not exist stopped the run in
the climatology lookup, before the position check could flag it.
---
 Climatology.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Climatology.py b/Climatology.py
index 4aaea5f..f6b743c 100644
--- a/Climatology.py
+++ b/Climatology.py
@@ -110,6 +110,9 @@ class Climatology:
         :type lon: float
         :rtype: float
         """
+        if lat < -90 or lat > 90 or lon < -180 or lon > 180:
+            return None
+
         yindex = qc.mds_lat_to_yindex(lat, res=0.05)
         xindex = qc.mds_lon_to_xindex(lon, res=0.05)
         tindex = 0
@@ -148,6 +151,9 @@ class Climatology:
         if day < 1 or day > ml[month - 1]:
             return None
 
+        if lat < -90 or lat > 90 or lon < -180 or lon > 180:
+            return None
+
         yindex = qc.mds_lat_to_yindex(lat)
         xindex = qc.mds_lon_to_xindex(lon)
         tindex = self.get_tindex(month, day)
-- 
2.43.0


From 3db7407bbf1fb8e29ab0cc15716ba3e351711c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:00 +0000
Subject: [PATCH 08/26] fix: reject a record that has no unique ID or no
 position

A blank line, or a record cut short before the attachment that holds the unique
ID, was read without an exception and then stopped the run: with a KeyError, in
a position check, or when the output was written.
---
 Extended_IMMA.py        | 18 ++++++++++++++++++
 marine_qc.py            |  4 +++-
 marine_qc_hires.py      |  4 +++-
 marine_qc_track_only.py |  4 +++-
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index d0c4c3a..dfd5a33 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -37,6 +37,24 @@ def safe_filename(infilename):
     return safename
 
 
+def is_complete(imma_rec):
+    """
+    Test whether an IMMA record has the unique ID and the position without which it can't be processed. The unique ID
+    is in an attachment, so it is missing if the record has been cut short.
+
+    :param imma_rec: the IMMA record
+    :return: True if the record has a unique ID and a position, False otherwise
+    :rtype: boolean
+    """
+    for key in ['ID', 'UID', 'LAT', 'LON']:
+        if key not in imma_rec.data:
+            return False
+        if imma_rec.data[key] is None and key != 'ID':
+            return False
+
+    return True
+
+
 def datestring(year, month, day):
     """
     Write year month and day in iso format
diff --git a/marine_qc.py b/marine_qc.py
index 48356a9..8373b0e 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -161,9 +161,11 @@ def main(argv):
 
                 try:
                     rec.readstr(line)
-                    readob = True
+                    readob = ex.is_complete(rec)
                 except:
                     readob = False
+
+                if not readob:
                     print("Rejected ob {}".format(line))
 
                 if (readob and
diff --git a/marine_qc_hires.py b/marine_qc_hires.py
index 5fc156a..44e32ef 100755
--- a/marine_qc_hires.py
+++ b/marine_qc_hires.py
@@ -151,9 +151,11 @@ def main(argv):
 
                 try:
                     rec.readstr(line)
-                    readob = True
+                    readob = ex.is_complete(rec)
                 except:
                     readob = False
+
+                if not readob:
                     print("Rejected ob {}".format(line))
 
                 if (readob and
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index da5b298..dece006 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -155,9 +155,11 @@ def main(argv):
 
                 try:
                     rec.readstr(line)
-                    readob = True
+                    readob = ex.is_complete(rec)
                 except:
                     readob = False
+
+                if not readob:
                     print("Rejected ob {}".format(line))
 
                 if (readob and
-- 
2.43.0


From 0206049a13faad1397400b54f9b4958f814d46f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:27 +0000
Subject: [PATCH 09/26] fix: no time difference, rather than an AssertionError,
 for reports without a valid date

A drifter with a report dated, say, the 45th or the 0th stopped the run when
its reports were put in a Voyage to be written out or track checked.
---
 Extended_IMMA.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index dfd5a33..3ed012c 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -506,10 +506,12 @@ class MarineReport:
         distance = sph.sphere_distance(self.lat(), self.lon(),
                                        other.lat(), other.lon())
 
-        timediff = qc.time_difference(other.getvar('YR'), other.getvar('MO'),
-                                      other.getvar('DY'), other.getvar('HR'),
-                                      self.getvar('YR'), self.getvar('MO'),
-                                      self.getvar('DY'), self.getvar('HR'))
+        timediff = None
+        if self.dt is not None and other.dt is not None:
+            timediff = qc.time_difference(other.getvar('YR'), other.getvar('MO'),
+                                          other.getvar('DY'), other.getvar('HR'),
+                                          self.getvar('YR'), self.getvar('MO'),
+                                          self.getvar('DY'), self.getvar('HR'))
         if timediff != 0 and timediff is not None:
             speed = distance / timediff
         else:
-- 
2.43.0


From 4acf33ccd7dcb6b66c23f0be8690fe937c246b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 10/26] fix: use the safe form of an ID in the names of all
 per-ID files

The ID went into file names as it is in the QC files of a drifter and in the
tracking QC and its wrapper, but in safe form in the variables file and in
ID_file.txt, so an ID with a slash or an asterisk stopped the run or was not
found again.
---
 Extended_IMMA.py       | 5 ++++-
 Tracking_QC_wrapper.py | 9 ++++++---
 tracking_qc.py         | 7 ++++---
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 3ed012c..8e2209b 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2465,8 +2465,11 @@ class Voyage:
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
+
+        safeid = safe_filename(self.reps[0].getvar('ID'))
+
         for var in allvarnames:
-            outfilename = var + '_qc_' + syr + smn + '_' + self.reps[0].getvar('ID') + '_' + runid + '.csv'
+            outfilename = var + '_qc_' + syr + smn + '_' + safeid + '_' + runid + '.csv'
             outfile = open(icoads_dir + '/' + outfilename, 'w')
             outfile.write(self.reps[0].print_qc_block(var, allvarnames[var], header=True))
             count_write = 0
diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index 2c787e4..1e41277 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -5,6 +5,7 @@ import sys
 import os
 import subprocess
 import qc
+import Extended_IMMA as ex
 import YMCounter as ym
 import json
 
@@ -71,7 +72,9 @@ def write_submission(config, targetid, yr1, mn1, yr2, mn2, edge, runmonthid, out
 
     codedir = '/net/home/h04/hadjj/PyWorkspace/Marine_QC/'
 
-    fname = 'Tracking_job_{}_{}{:02}_{}{:02}_{}_{}'.format(targetid.replace(" ", ""),
+    safeid = ex.safe_filename(targetid.replace(" ", ""))
+
+    fname = 'Tracking_job_{}_{}{:02}_{}{:02}_{}_{}'.format(safeid,
                                                            yr1, mn1, yr2, mn2, runmonthid, runid)
 
     options = {'id': targetid, 'config': config,
@@ -95,12 +98,12 @@ def write_submission(config, targetid, yr1, mn1, yr2, mn2, edge, runmonthid, out
     outfile.write("#SBATCH --mem=8000\n")
     outfile.write("#SBATCH --ntasks=1\n")
     outfile.write("#SBATCH --output={}/SPICE_trackqc_errout{}{:02}{}_{}\n".format(logdir, yr2, mn2,
-                                                                                  targetid.replace(" ", ""), runid))
+                                                                                  safeid, runid))
     outfile.write("#SBATCH --time=30\n")
     outfile.write("\n")
     outfile.write("module load scitools/default_legacy-current\n")
     outfile.write(command + " > {}/SPICE_trackqc_genout{}{:02}{}_{}\n".format(logdir, yr2, mn2,
-                                                                              targetid.replace(" ", ""), runid))
+                                                                              safeid, runid))
 
     outfile.close()
 
diff --git a/tracking_qc.py b/tracking_qc.py
index a475f68..9f93810 100644
--- a/tracking_qc.py
+++ b/tracking_qc.py
@@ -141,6 +141,7 @@ def main(argv):
     target_id = args.id
     while len(target_id) < 9:
         target_id += ' '
+    safe_id = ex.safe_filename(target_id)
 
     print('Running track QC for ID {}'.format(target_id))
     print('')
@@ -166,9 +167,9 @@ def main(argv):
         sm = "{:02}".format(month)
 
         # input data files
-        filename = "{0}/{1}/{2}/Variables_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, target_id, parameters['runid'])
-        posqc_filename = "{0}/{1}/{2}/POS_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, target_id, parameters['runid'])
-        sstqc_filename = "{0}/{1}/{2}/SST_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, target_id, parameters['runid'])
+        filename = "{0}/{1}/{2}/Variables_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, safe_id, parameters['runid'])
+        posqc_filename = "{0}/{1}/{2}/POS_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, safe_id, parameters['runid'])
+        sstqc_filename = "{0}/{1}/{2}/SST_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, safe_id, parameters['runid'])
 
         # check if any data exists for this month before continuing
         if not (os.path.isfile(filename) or
-- 
2.43.0


From eaf8edabd1c2b81a117f5c2731119cd09ae621c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:18 +0000
Subject: [PATCH 11/26] fix: quote IDs and paths in the commands of the
 tracking QC wrapper

An ID with a space inside it was split into two arguments, and one with a
character that is special to the shell was expanded or cut short.
---
 Tracking_QC_wrapper.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index 1e41277..581cb1a 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -3,6 +3,7 @@ import argparse
 import ConfigParser
 import sys
 import os
+import pipes
 import subprocess
 import qc
 import Extended_IMMA as ex
@@ -83,7 +84,10 @@ def write_submission(config, targetid, yr1, mn1, yr2, mn2, edge, runmonthid, out
 
     command = 'python {}tracking_qc.py'.format(codedir)
     for op in options:
-        command = command + " -{} {}".format(op, options[op])
+        value = options[op]
+        if op in ['id', 'config']:
+            value = pipes.quote(value)
+        command = command + " -{} {}".format(op, value)
 
     logdir = outdir + '/TrackingQC/logs'
     jobdir = outdir + '/TrackingQC/jobs'
@@ -102,12 +106,12 @@ def write_submission(config, targetid, yr1, mn1, yr2, mn2, edge, runmonthid, out
     outfile.write("#SBATCH --time=30\n")
     outfile.write("\n")
     outfile.write("module load scitools/default_legacy-current\n")
-    outfile.write(command + " > {}/SPICE_trackqc_genout{}{:02}{}_{}\n".format(logdir, yr2, mn2,
-                                                                              safeid, runid))
+    genout = "{}/SPICE_trackqc_genout{}{:02}{}_{}".format(logdir, yr2, mn2, safeid, runid)
+    outfile.write(command + " > " + pipes.quote(genout) + "\n")
 
     outfile.close()
 
-    os.system("sbatch "+jobdir+"/"+fname)
+    os.system("sbatch "+pipes.quote(jobdir+"/"+fname))
 
     count = checkload('hadjj')
     while count > 250:
-- 
2.43.0


From e4ac9d86da71e12f142746a43ce19fc613e242a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:18 +0000
Subject: [PATCH 12/26] fix: stop when a tracking QC job can't be submitted

The exit status of sbatch was ignored, so a drifter whose job was refused was
left out of the tracking QC without a word.
---
 Tracking_QC_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index 581cb1a..3f79bbe 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -111,7 +111,9 @@ def write_submission(config, targetid, yr1, mn1, yr2, mn2, edge, runmonthid, out
 
     outfile.close()
 
-    os.system("sbatch "+pipes.quote(jobdir+"/"+fname))
+    status = os.system("sbatch "+pipes.quote(jobdir+"/"+fname))
+    if status != 0:
+        raise Exception("could not submit job {}/{}".format(jobdir, fname))
 
     count = checkload('hadjj')
     while count > 250:
-- 
2.43.0


From 7a0097b8785bd11b364a917cdce02cbca988e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:18 +0000
Subject: [PATCH 13/26] fix: don't stop when another process makes the jobs
 folder first

---
 Tracking_QC_wrapper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index 3f79bbe..ad3ff3c 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -48,7 +48,12 @@ def safemake(folder):
     """
 
     if not os.path.exists(folder):
-        os.mkdir(folder)
+        try:
+            os.mkdir(folder)
+        except OSError:
+            # another process may have made it in the meantime
+            if not os.path.isdir(folder):
+                raise
 
 
 def write_submission(config, targetid, yr1, mn1, yr2, mn2, edge, runmonthid, outdir, runid):
-- 
2.43.0


From 193f32e0e1c8dd382a11e1b41d5a7368a263e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:18 +0000
Subject: [PATCH 14/26] fix: 'noend' leaves out chunks that end within the gap,
 whether or not they start within it

A chunk that was both a start and an end edge case was submitted, contrary to
the documentation of 'noend', and so was QCd again once more data had come in.
---
 Tracking_QC_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index ad3ff3c..d2ffb3f 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -255,7 +255,7 @@ def main(argv):
                     print('Ignore', yy1, mm1, yy2, mm2, cl)
 
             if edge == 'noend':
-                if 'regular' in cl or 'start_edge_case' in cl:
+                if 'end_edge_case' not in cl:
                     print('Submit', yy1, mm1, yy2, mm2, cl)
                     write_submission(inputfile, targetid, yy1, mm1, yy2, mm2, cl,
                                      runmonthid, track_out_dir, parameters['runid'])
-- 
2.43.0


From 953f25e94ae24deed7d54bfd6b44d1fc599a88df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:18 +0000
Subject: [PATCH 15/26] fix: find the first chunk when the gap is more than 10
 months

The count of months without data started at 10, so with a longer gap a series
that began with data had no first chunk.
---
 YMCounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/YMCounter.py b/YMCounter.py
index 5c7a632..46bca0d 100644
--- a/YMCounter.py
+++ b/YMCounter.py
@@ -25,7 +25,7 @@ class YMCounter:
 
         starts = []
         ends = []
-        zeros = 10
+        zeros = gap
         lastdata = -1
 
         for i in range(0, self.n):
-- 
2.43.0


From 6c851391d4686d9313822232af6478b375f91599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:46 +0000
Subject: [PATCH 16/26] fix: don't accept an input file that was cut short in
 its last line

The line count of such a file is right, and the last value of the last line was
read with digits missing, or as the missing value.
---
 tracking_qc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracking_qc.py b/tracking_qc.py
index 9f93810..838daec 100644
--- a/tracking_qc.py
+++ b/tracking_qc.py
@@ -185,9 +185,13 @@ def main(argv):
             try:
                 with open(infile, 'r') as file:
                     linecount = 0
+                    line = ''
                     for line in file:
                         linecount += 1
                     filelines.append(linecount)
+                    if not line.endswith('\n') and linecount != 0:
+                        message = 'last line is incomplete: ' + infile
+                        file_fail = True
                     if linecount == 0:
                         message = 'empty file: ' + infile
                         file_fail = True
-- 
2.43.0


From ad4837427661c303b492f43b3bb47f283f66d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:07 +0000
Subject: [PATCH 17/26] fix: go on to the next month when there are no
 observations to write out

Writing a Deck with no reports raised IndexError, so that a month without
reports, between months without reports, stopped a run over many months.
---
 Extended_IMMA.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 8e2209b..754e87d 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -3161,6 +3161,10 @@ class Deck:
         Write out QC flags for specified variable names from 
         the contents of the :class:`.Deck`.
         """
+        if len(self) == 0:
+            print("no obs to write out")
+            return
+
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
@@ -3187,6 +3191,10 @@ class Deck:
         """
         Write out the contents of the :class:`.Deck`.
         """
+        if len(self) == 0:
+            print("no obs to write out")
+            return
+
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
@@ -3231,6 +3239,10 @@ class Deck:
         """
         Write out the contents of the :class:`.Deck`.
         """
+        if len(self) == 0:
+            print("no obs to write out")
+            return
+
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
-- 
2.43.0


From 0f8711e422e7b27cdb3d9dec4fe559d977e40bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:57 +0000
Subject: [PATCH 18/26] fix: read climatologies with a level axis, or longitude
 first, whatever else their layout is

The level axis was only dropped after flipping and rolling, which so hit the
wrong axes; fields stored longitude first were only turned if they had one
time step.
---
 Climatology.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Climatology.py b/Climatology.py
index f6b743c..88a4cbd 100644
--- a/Climatology.py
+++ b/Climatology.py
@@ -53,9 +53,12 @@ class Climatology:
 
             climatology.close()
 
+            # the steps below need fields of (time, latitude, longitude)
+            if field.ndim == 4:
+                field = field[:, 0, :, :]
+
             # transpose the fields if the second axis is longitude
-            if (field.shape[0] == 1 and
-                    field.shape[1] == 360 and
+            if (field.shape[1] == 360 and
                     field.shape[2] == 180):
                 field = field.transpose(0, 2, 1)
 
@@ -69,9 +72,6 @@ class Climatology:
                 lon_len = field.shape[2]
                 field = np.roll(field, lon_len / 2, axis=2)
 
-            if field.ndim == 4:
-                field = field[:, 0, :, :]
-
         else:
             field = np.ma.array(np.zeros((1, 180 * 20, 360 * 20)), mask=True)
 
-- 
2.43.0


From 8ea0bc146b81e5276012b858df2a92f737379087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:26 +0000
Subject: [PATCH 19/26] fix: double quotes in an ID are doubled in the CSV
 outputs

A quote in an ID was written as it is inside the quoted ID column, so reading the file gave another ID, and tracking QC
wrote its output under the wrong name.
---
 Extended_IMMA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 754e87d..7327eba 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -1045,7 +1045,7 @@ class MarineReport:
                         repout.append(tostring(self.getvar(var[0])))
                         repout.append(",")
                     else:
-                        repout.append('"' + self.getvar(var[0]) + '"')
+                        repout.append('"' + self.getvar(var[0]).replace('"', '""') + '"')
                         repout.append(",")
                 else:
                     if len(var) > 1:
-- 
2.43.0


From 47bdbf79473b2f7dd7f01174fcb4dccff38699d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:26 +0000
Subject: [PATCH 20/26] fix: the wrapper takes IDs that hold commas whole from
 the ID lists

Only what stands before the first comma was taken, so jobs were submitted for an ID that does not exist and the drifter
was left out.
---
 Tracking_QC_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index d2ffb3f..1b5e0d8 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -217,7 +217,8 @@ def main(argv):
 
         for line in idfile:
             line = line.rstrip("\n")
-            columns = line.split(',')
+            # each line has the ID and its filename form, which hold the same number of commas
+            columns = line.rsplit(',', line.count(',') // 2 + 1)
             if columns[0] in id_dictionary:
                 id_dictionary[columns[0]].setym(year, month, 1)
             else:
-- 
2.43.0


From 9716567fea63336d68b0bc4c43a4354f5020318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:52 +0000
Subject: [PATCH 21/26] fix: an ID that begins with a hyphen was taken for an
 option by the tracking QC jobs

---
 Tracking_QC_wrapper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index 1b5e0d8..4506676 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -91,8 +91,10 @@ def write_submission(config, targetid, yr1, mn1, yr2, mn2, edge, runmonthid, out
     for op in options:
         value = options[op]
         if op in ['id', 'config']:
-            value = pipes.quote(value)
-        command = command + " -{} {}".format(op, value)
+            # in one piece with its name, as an ID can begin with a hyphen
+            command = command + " -{}={}".format(op, pipes.quote(value))
+        else:
+            command = command + " -{} {}".format(op, value)
 
     logdir = outdir + '/TrackingQC/logs'
     jobdir = outdir + '/TrackingQC/jobs'
-- 
2.43.0


From 757dc002e249fc810806ccbcdb574356fa5c507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:07 +0000
Subject: [PATCH 22/26] fix: a drifter that crosses the date line could be
 flagged aground

---
 trackqc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trackqc.py b/trackqc.py
index 176f1c0..b4b43c8 100644
--- a/trackqc.py
+++ b/trackqc.py
@@ -364,6 +364,13 @@ def new_aground_check(reps, smooth_win=41, min_win_period=8):
 
     hrs = np.cumsum(hrs)  # get time difference in hours relative to first report
 
+    # longitudes go on beyond 180 where the drifter crosses the date line, or they could not be smoothed there
+    for ind in range(1, nrep):
+        while lon[ind] - lon[ind - 1] > 180.0:
+            lon[ind] -= 360.0
+        while lon[ind] - lon[ind - 1] < -180.0:
+            lon[ind] += 360.0
+
     # create smoothed lon/lat timeseries
     nrep_smooth = nrep - smooth_win + 1  # length of series after smoothing
     lon_smooth = np.empty(nrep_smooth)
-- 
2.43.0


From 7c98cb4ebe4e4946eff0dd5a72d736c235c1181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:07 +0000
Subject: [PATCH 23/26] fix: background files in folders whose names hold
 blanks or the like could not be decompressed

---
 BackgroundField.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BackgroundField.py b/BackgroundField.py
index 1af1fa6..e9961f0 100644
--- a/BackgroundField.py
+++ b/BackgroundField.py
@@ -4,6 +4,7 @@ changed in moving from one system to another.
 """
 
 import os
+import pipes
 import socket
 import subprocess
 
@@ -201,7 +202,7 @@ def decompress_to(infile, outfile):
     """
     partfile = '{}.{}.{}.part'.format(outfile, socket.gethostname(), os.getpid())
 
-    status = subprocess.call('bunzip2 -c ' + infile + ' > ' + partfile, shell=True)
+    status = subprocess.call('bunzip2 -c ' + pipes.quote(infile) + ' > ' + pipes.quote(partfile), shell=True)
 
     if status != 0:
         if os.path.isfile(partfile):
-- 
2.43.0


From 0ab3082641547ee928fd158f79851eec4c1a8294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:47 +0000
Subject: [PATCH 24/26] fix: reports less than a minute apart were not put in
 time order, and tracking QC stopped

---
 Extended_IMMA.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 7327eba..a018f5c 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -484,13 +484,14 @@ class MarineReport:
                     0 <= self.getvar('HR') < 24 and
                     0 < self.getvar('DY') <= mlen[self.getvar('MO') - 1]):
                 rounded_hour = int(math.floor(self.getvar('HR')))
-                rounded_minute = int(math.floor(60 *
+                rounded_second = int(math.floor(3600 *
                                                 (self.getvar('HR') - rounded_hour)))
                 self.dt = datetime(self.getvar('YR'),
                                    self.getvar('MO'),
                                    int(self.getvar('DY')),
                                    rounded_hour,
-                                   rounded_minute)
+                                   rounded_second // 60,
+                                   rounded_second % 60)
             else:
                 self.dt = None
         else:
-- 
2.43.0


From 27c3182930f40c5eb8f2e56832cb54fad2b60617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 25/26] fix: buddy checks near the poles used reports from the
 other pole and counted cells twice

---
 Extended_IMMA.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index a018f5c..6842da9 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2633,15 +2633,24 @@ class Np_Super_Ob:
         temp_anom = []
         temp_nobs = []
 
-        for xpt in range(-1 * full_xspan, full_xspan + 1):
+        # near the poles the search can go all the way round, but each cell counts once
+        xpts = range(-1 * full_xspan, full_xspan + 1)
+        if len(xpts) > 360:
+            xpts = range(-180, 180)
+
+        for xpt in xpts:
             for ypt in range(-1 * yspan, yspan + 1):
                 for ppt in range(-1 * pspan, pspan + 1):
 
                     if xpt == 0 and ypt == 0 and ppt == 0:
                         continue
 
+                    # there are no cells beyond the poles
+                    if not 0 <= yindex + ypt < 180:
+                        continue
+
                     thisxx = (xindex + xpt) % 360
-                    thisyy = (yindex + ypt) % 180
+                    thisyy = yindex + ypt
                     thispp = (pindex + ppt) % 73
 
                     if self.nobs[thisxx][thisyy][thispp] != 0:
-- 
2.43.0


From 4e9db95068a7258b9a10a47b5f569d4f3686b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 26/26] fix: plain background files in a folder with .bz2 in
 its name were taken for compressed ones

---
 BackgroundField.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BackgroundField.py b/BackgroundField.py
index e9961f0..7769a08 100644
--- a/BackgroundField.py
+++ b/BackgroundField.py
@@ -260,7 +260,7 @@ def get_background_filename(dirstubs, filenamestubs, year, month, day):
     outfile = None
 
 # for bzipped files check to see if unzipped file exists
-    if '.bz2' in chosen_orig:
+    if chosen_orig.endswith('.bz2'):
         if os.path.isfile(chosen_new):
             outfile = chosen_new
         else:
-- 
2.43.0

