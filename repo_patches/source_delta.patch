From 38b69ad5a9265a00af186ffe832c92b338fb08b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:42 +0000
Subject: [PATCH 01/36] fix: read catalogues whose optional fields are blank

A blank optional field became '' and was then compared with a number,
which raises TypeError on Python 3, so no catalogue with a blank optional
field could be read.
---
 mtoolkit/eqcatalog.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 723bf19..7ee32ef 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -212,7 +212,8 @@ class EqEntryReader(object):
 
         if field in self.compulsory_fields:
             return eq_entry[field] > 0
-        if eq_entry[field] < 0:
+        if eq_entry[field] != EqEntryReader.EMPTY_STRING and \
+            eq_entry[field] < 0:
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -260,7 +261,8 @@ class EqEntryReader(object):
         of the value in the eq_entry.
         """
 
-        if not 0 <= eq_entry[field] <= 59:
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 59:
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -287,7 +289,8 @@ class EqEntryReader(object):
         (i.e. ErrorStrike, SemiMinor90, SemiMajor90).
         """
 
-        if not 0 <= eq_entry[field] <= 360 or \
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 360 or \
             eq_entry['SemiMinor90'] == EqEntryReader.EMPTY_STRING or \
             eq_entry['SemiMajor90'] == EqEntryReader.EMPTY_STRING or \
             not (eq_entry['SemiMinor90'] <= eq_entry['SemiMajor90']):
-- 
2.43.0


From 0c063ecb8f447eac87ac743b5aad4859fec49579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:42 +0000
Subject: [PATCH 02/36] fix: Gardner-Knopoff declustering on current numpy

The distance test returns an (n, 1) array, which current numpy refuses to
assign through a 1-D boolean mask.
---
 mtoolkit/scientific/declustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 3f0983a..2905a39 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -207,7 +207,7 @@ def gardner_knopoff_decluster(
             vsel1 = haversine(
                 catalog_matrix[vsel, 3], catalog_matrix[vsel, 4],
                 catalog_matrix[i, 3], catalog_matrix[i, 4]) <= sw_space[i]
-            vsel[vsel] = vsel1
+            vsel[vsel] = vsel1.flatten()
             temp_vsel = np.copy(vsel)
             temp_vsel[i] = False
             if any(temp_vsel):
-- 
2.43.0


From e6ead217c111d4f115c0829e6b1b7ac6964b1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:42 +0000
Subject: [PATCH 03/36] fix: maximum magnitude estimators on current numpy and
 Python 3

np.float is gone, np.zeros needs an int size, and np.min compared the
function np.std with a number, which raises TypeError on Python 3. On
Python 2 a number always compared less than a function, so the numbers the
QA tests expect use the inter-quartile range only; they are kept.
---
 mtoolkit/scientific/maximum_magnitude.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index ea5f84f..ceeb32c 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -57,12 +57,12 @@ def h_smooth(mag):
     :rtype hfact: Float
     """
 
-    neq = np.float(np.shape(mag)[0])
+    neq = float(np.shape(mag)[0])
 
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
     iqr = qtiles[1] - qtiles[0]
-    hfact = 0.9 * np.min([np.std, iqr / 1.34]) * (neq ** (-1. / 5.))
+    hfact = 0.9 * (iqr / 1.34) * (neq ** (-1. / 5.))
     # Round h to 2 dp
     hfact = np.round(100. * hfact) / 100.
     return hfact
@@ -204,12 +204,12 @@ def kijko_nonparametric_gauss(mag, mag_sig, neq,
     # Find number_eqs largest events
     if np.shape(mag)[0] <= neq:
         # Catalogue smaller than number of required events
-        neq = np.float(np.shape(mag)[0])
+        neq = float(np.shape(mag)[0])
     else:
         # Select number_eqs largest events
         mag = np.sort(mag, kind='quicksort')
         mag = mag[-neq:]
-        neq = np.float(neq)
+        neq = float(neq)
 
     mmin = np.min(mag)
     # Get smoothing factor
@@ -252,7 +252,7 @@ def cumulative_moment(year, mag):
     # Calculate seismic moment
     m_o = 10. ** (9.05 + 1.5 * mag)
     year_range = np.arange(np.min(year), np.max(year) + 1, 1)
-    nyr = np.float(np.shape(year_range)[0])
+    nyr = np.shape(year_range)[0]
     morate = np.zeros(nyr, dtype=float)
     # Get moment release per year
     for loc, tyr in enumerate(year_range):
@@ -260,7 +260,7 @@ def cumulative_moment(year, mag):
         if np.sum(idx) > 0:
             # Some moment release in that year
             morate[loc] = np.sum(m_o[idx])
-    ave_morate = np.sum(morate) / nyr
+    ave_morate = np.sum(morate) / float(nyr)
 
     # Average moment rate vector
     exp_morate = np.cumsum(ave_morate * np.ones(nyr))
-- 
2.43.0


From 68daa5cf5524c7560830c2f673c03c19314a11c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:42 +0000
Subject: [PATCH 04/36] fix: MLE recurrence on current numpy (np.float is gone)

---
 mtoolkit/scientific/recurrence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index af60234..609ecb4 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -205,15 +205,15 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
         # differences.
         id1 = np.logical_and(year >= ctime[ival],
                     mag >= (m_c - mag_eq_tolerance))
-        nyr = np.float(np.max(year[id1]) - np.min(year[id1]) + 1)
+        nyr = float(np.max(year[id1]) - np.min(year[id1]) + 1)
 
         # Get a- and b- value for the selected events
         temp_rec_table = recurrence_table(mag[id1], dmag, year[id1])
         bval, sigma_b = b_max_likelihood(temp_rec_table[:, 0],
                                          temp_rec_table[:, 1], dmag, m_c)
 
-        aval = np.log10(np.float(np.sum(id1)) / nyr) + bval * m_c
-        sigma_a = np.abs(np.log10(np.float(np.sum(id1)) / nyr) +
+        aval = np.log10(float(np.sum(id1)) / nyr) + bval * m_c
+        sigma_a = np.abs(np.log10(float(np.sum(id1)) / nyr) +
             (bval + sigma_b) * ref_mag - aval)
 
         # Calculate reference rate
-- 
2.43.0


From 1901e5743bfa2a6341462def07c373a871a352e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:42 +0000
Subject: [PATCH 05/36] fix: write the result model in binary mode and close
 the file

lxml writes bytes, so a text-mode file raises TypeError on Python 3. The
file was left to the garbage collector, so an error met when the last
bytes were flushed was lost.
---
 nrml/writer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index d793fdc..9afd2b8 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -59,9 +59,10 @@ class AreaSourceWriter(object):
         root_elem = _write_body(root_elem, area_sources)
 
         tree = etree.ElementTree(root_elem)
-        tree.write(open(self.filename, 'w'),
-            xml_declaration=True, encoding='utf-8',
-            pretty_print=True)
+        with open(self.filename, 'wb') as nrml_file:
+            tree.write(nrml_file,
+                xml_declaration=True, encoding='utf-8',
+                pretty_print=True)
 
 
 def _write_header(area_sources):
-- 
2.43.0


From eb8237905fe7998cd2cc1fb88295c6f8ecc2f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:45 +0000
Subject: [PATCH 06/36] fix: refuse a day below 1 in February, as in the other
 months

---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 7ee32ef..2c933f8 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -236,7 +236,7 @@ class EqEntryReader(object):
         Return a bool stating if check is passed.
         """
 
-        return (eq_entry['month'] == 2 and eq_entry[field] <= 29)\
+        return (eq_entry['month'] == 2 and 1 <= eq_entry[field] <= 29)\
             or (eq_entry['month'] != 2 and 1 <= eq_entry[field] <= 31)
 
     def check_hour(self, field, eq_entry):
-- 
2.43.0


From b2d8a29b1e06f9cbbe4c3bdcd50a18925ae074b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:45 +0000
Subject: [PATCH 07/36] fix: report a compulsory decimal field that cannot be
 converted

The validation error was built without its line number, so a TypeError
about the exception's own arguments was raised instead.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 2c933f8..ea86a06 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -189,7 +189,7 @@ class EqEntryReader(object):
                 except ValueError:
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
-                            dict_fields_values[key])
+                            dict_fields_values[key], self.current_line)
                     else:
                         dict_fields_values[key] = EqEntryReader.EMPTY_STRING
 
-- 
2.43.0


From bd5feb67a34891606b749262995ebe064e582fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:45 +0000
Subject: [PATCH 08/36] fix: report a record that stops before its last fields

The missing fields are None, whose conversion raises TypeError: treat it
as any other value that cannot be converted.
---
 mtoolkit/eqcatalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index ea86a06..ce517d6 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -176,7 +176,7 @@ class EqEntryReader(object):
                 try:
                     dict_fields_values[key] = int(
                         dict_fields_values[key])
-                except ValueError:
+                except (ValueError, TypeError):
                     # fields in self.to_int are all compulsory
                     raise EqEntryValidationError(key,
                             dict_fields_values[key], self.current_line)
@@ -186,7 +186,7 @@ class EqEntryReader(object):
                 try:
                     dict_fields_values[key] = float(
                         dict_fields_values[key])
-                except ValueError:
+                except (ValueError, TypeError):
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
                             dict_fields_values[key], self.current_line)
-- 
2.43.0


From febe43d4a47bc2cdf82e14cb406c11fdab4e57ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:45 +0000
Subject: [PATCH 09/36] fix: keep seconds between 59 and 60

The second is a decimal field: 59.5 is a valid one and was blanked.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index ce517d6..33644da 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -262,7 +262,7 @@ class EqEntryReader(object):
         """
 
         if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
-            not 0 <= eq_entry[field] <= 59:
+            not 0 <= eq_entry[field] < 60:
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
-- 
2.43.0


From 867268ca8d47eedc8c931a0afd110e2a352c6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:45 +0000
Subject: [PATCH 10/36] fix: accept an output file in the current directory

The directory part of a bare file name is '', which never exists.
---
 mtoolkit/eqcatalog.py | 2 +-
 nrml/writer.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 33644da..5f27abc 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -340,7 +340,7 @@ class EqEntryWriter(object):
 
     def __init__(self, output_filename):
         output_dir = os.path.dirname(output_filename)
-        if not os.path.exists(output_dir):
+        if output_dir and not os.path.exists(output_dir):
             raise IOError('Invalid dir: %s' % output_dir)
         self.output_filename = output_filename
 
diff --git a/nrml/writer.py b/nrml/writer.py
index 9afd2b8..f51163f 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -43,7 +43,7 @@ class AreaSourceWriter(object):
         """
 
         dirname = os.path.dirname(filename)
-        if not os.path.exists(dirname):
+        if dirname and not os.path.exists(dirname):
             raise IOError('Dir %s not found' %
                 (os.path.abspath(dirname), ))
         self.filename = filename
-- 
2.43.0


From b3a87a6c06f603c3289d7b51193a264debb30950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 11/36] fix: Gardner-Knopoff clusters take only free and
 smaller events

numpy.logical_and takes two operands: the third one, meant to leave out
the events already clustered, was its output array. Events of a cluster,
main shocks included, were taken over by later, smaller events; and a
small event shortly before a larger one took it as its aftershock, so that
the larger one was purged.
---
 mtoolkit/scientific/declustering.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 2905a39..e679003 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -200,8 +200,10 @@ def gardner_knopoff_decluster(
             # Find Events inside both fore- and aftershock time windows
             dt = year_dec - year_dec[i]
             vsel = np.logical_and(dt >= (-sw_time[i] * fs_time_prop),
-                                              dt <= sw_time[i],
-                                              flagvector == 0)
+                                              dt <= sw_time[i])
+            # Only events not in a cluster yet, nor larger than this one
+            vsel = np.logical_and(vsel, vcl == 0)
+            vsel[:i] = False
             # Of those events inside time window, find those inside distance
             # window
             vsel1 = haversine(
-- 
2.43.0


From 478de257c1322babd70df0d5570e82dfe0abf01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 12/36] fix: move the Afteran window in chronological order

The events inside the distance window are sorted by magnitude, and the
window moved through them in that order: an event within the window was
left out of the cluster whenever a larger one had already moved the window
past it. The search for foreshocks also left out the event that follows
each aftershock, since it advanced twice.
---
 mtoolkit/scientific/declustering.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index e679003..302d6dd 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -252,15 +252,16 @@ def _find_aftershocks(dtime, nval, time_window):
     vsel = np.array(np.ones(nval), dtype=bool)
     initval = dtime[0]  # Start with the mainshock
 
-    j = 1
-    while j < nval:
+    # Move the window through the events in chronological order
+    for j in np.argsort(dtime, kind='mergesort'):
+        if j == 0:
+            continue
         ddt = dtime[j] - initval
         # Is event after previous event and within time window?
         vsel[j] = np.logical_and(ddt >= 0.0, ddt <= time_window)
         if vsel[j]:
             # Reset time window to new event time
             initval = dtime[j]
-        j += 1
     return vsel
 
 
@@ -280,15 +281,12 @@ def _find_foreshocks(dtime, nval, time_window, vsel_aftershocks):
     :rtype: numpy.ndarray
     """
 
-    j = 1
     vsel = np.array(np.zeros(nval), dtype=bool)
     initval = dtime[0]
 
-    while j < nval:
-        if vsel_aftershocks[j]:
-        # Event already allocated as an aftershock - skip
-            j += 1
-        else:
+    # Move the window back through the events, the latest first
+    for j in np.argsort(-dtime, kind='mergesort'):
+        if not vsel_aftershocks[j]:
             ddt = dtime[j] - initval
             # Is event before previous event and within time window?
             vsel[j] = np.logical_and(ddt <= 0.0,
@@ -296,7 +294,6 @@ def _find_foreshocks(dtime, nval, time_window, vsel_aftershocks):
             if vsel[j]:
             # Yes, reset time window to new event
                 initval = dtime[j]
-        j += 1
 
     return vsel
 
-- 
2.43.0


From 21d8fbbad696a83c31381b3eebf39391e1904691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 13/36] fix: Afteran takes the event under examination as the
 main one

A larger event, not clustered and inside the distance window of a smaller
one, came first in the selection and was taken as the main event of the
cluster of the smaller one: times were counted from it and the smaller
event itself could be left out.
---
 mtoolkit/scientific/declustering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 302d6dd..862289e 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -356,6 +356,8 @@ def afteran_decluster(
 
             # Select earthquakes inside distance window and not in cluster
             vsel = np.logical_and(mdist <= sw_space[i], vcl == 0).flatten()
+            # The main event is the largest of its cluster
+            vsel[:i] = False
             dtime = year_dec[vsel] - year_dec[i]
 
             nval = np.shape(dtime)[0]  # Number of events inside valid window
-- 
2.43.0


From 4647eb4cafd5a8799107638784f79355f187cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 14/36] fix: accept tectonic region weights that sum to one but
 for rounding

[0.7, 0.2, 0.1] was refused and [0.1, 0.2, 0.7] accepted. An empty list of
weights raised TypeError instead of ValueError.
---
 mtoolkit/geo/tectonic_region.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mtoolkit/geo/tectonic_region.py b/mtoolkit/geo/tectonic_region.py
index 1420c1f..0bed3a5 100644
--- a/mtoolkit/geo/tectonic_region.py
+++ b/mtoolkit/geo/tectonic_region.py
@@ -144,17 +144,18 @@ class TectonicRegion(object):
             is not one.
         """
 
-        sum_weights_msr = reduce(lambda x, y: x + y, msr)
-        sum_weights_smod = reduce(lambda x, y: x + y, smod)
-        sum_weights_dlr = reduce(lambda x, y: x + y, dlr)
+        sum_weights_msr = sum(msr)
+        sum_weights_smod = sum(smod)
+        sum_weights_dlr = sum(dlr)
+        tolerance = 1.0E-9
 
-        if sum_weights_msr != 1.0:
+        if abs(sum_weights_msr - 1.0) > tolerance:
             raise ValueError('The sum of weights for magnitude scaling'
                             ' relations should be one')
-        if sum_weights_smod != 1.0:
+        if abs(sum_weights_smod - 1.0) > tolerance:
             raise ValueError('The sum of weights for shear modulus'
                            ' should be one')
-        if sum_weights_dlr != 1.0:
+        if abs(sum_weights_dlr - 1.0) > tolerance:
             raise ValueError('The sum of weights for displacement length ratio'
                             ' should be one')
 
-- 
2.43.0


From 0c494a63d85d7b4366a8fdb8a90d815ae9c4d52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 15/36] fix: Stepp finds a completeness period at the first
 time window

np.any is false for an array that holds only the index 0, so a departure
from the Poisson rate found at the first time window counted as none.
---
 mtoolkit/scientific/completeness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/completeness.py b/mtoolkit/scientific/completeness.py
index afd3adf..977cc09 100644
--- a/mtoolkit/scientific/completeness.py
+++ b/mtoolkit/scientific/completeness.py
@@ -108,7 +108,7 @@ def stepp_analysis(year, mw, dm=0.1, dt=1, ttol=0.2, iloc=True):
         resid1 = grad1 - time_diff
         test1 = np.abs(resid1[1:] - resid1[:-1])
         tloct = np.nonzero(test1 > ttol)[0]
-        if not(np.any(tloct)):
+        if len(tloct) == 0:
             tloct = -1
         else:
             tloct = tloct[-1]
-- 
2.43.0


From a5394e09da27ed4a90133087db811d05c2d09b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 16/36] fix: read a source model without area sources as an
 empty one

The result was stored inside the loop, so it was left to None.
---
 mtoolkit/jobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index 40af0ad..ff53c8f 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -86,7 +86,7 @@ def read_source_model(context):
     for sm in reader.read():
         sm_definitions.append(sm)
 
-        context.sm_definitions = sm_definitions
+    context.sm_definitions = sm_definitions
 
     LOGGER.debug("* Eq number source models: %s" % len(context.sm_definitions))
 
-- 
2.43.0


From 400e7c4aa65e4119c13e736979b7a4bea582a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 17/36] fix: Weichert reports data that do not define the
 parameters

---
 mtoolkit/scientific/recurrence.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 609ecb4..47374cd 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -30,6 +30,8 @@ import logging
 
 LOGGER = logging.getLogger('mt_logger')
 
+MAX_WEICHERT_ITERATIONS = 1000
+
 
 def recurrence_analysis(year_col, magnitude_col,
                         completeness_table, magnitude_window,
@@ -330,10 +332,15 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
     :type itstab: float
     :returns: b-value, sigma_b, a-value, sigma_a
     :rtype: float
+    :raises ValueError: when the observations do not define the parameters
     """
 
+    if np.shape(fmag)[0] < 2:
+        raise ValueError('Weichert needs at least two magnitude bins')
+
     d_m = fmag[1] - fmag[0]
     itbreak = 0
+    iteration = 0
     while (itbreak != 1):
         snm = np.sum(nobs * fmag)
         nkount = np.sum(nobs)
@@ -348,6 +355,9 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
         dldb = (dldb * nkount) - snm
         betl = np.copy(beta)
         beta = beta - (dldb / d2ldb2)
+        iteration += 1
+        if iteration > MAX_WEICHERT_ITERATIONS or not np.isfinite(beta):
+            raise ValueError('Weichert estimation does not converge')
         sigbeta = np.sqrt(-1. / d2ldb2)
         bval = beta / np.log(10.0)
         sigb = sigbeta / np.log(10.)
-- 
2.43.0


From f32d961fd141bd7a4559ab969267f5b7034389ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 18/36] fix: keep the parameters of a zone with too few events

---
 mtoolkit/jobs.py | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index ff53c8f..94283a1 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -297,6 +297,17 @@ def retrieve_completeness_table(context):
     LOGGER.debug("* Completeness Table retrieved")
 
 
+def _warn_not_possible(calculation, area_source, reason):
+    """
+    Warn that a calculation is not possible for a
+    source, whose parameters are not overwritten.
+    """
+
+    LOGGER.warning("%s calculation not possible for the source %s: %s, "
+        "its parameters are not changed" %
+        (calculation, area_source.name, reason))
+
+
 @logged_job
 def recurrence(context):
     """
@@ -306,7 +317,12 @@ def recurrence(context):
         in a pipeline
     """
 
-    bval, sigb, a_m, siga_m = context.map_sc['recurrence'](
+    if not len(context.current_filtered_eq):
+        _warn_not_possible('Recurrence', context.cur_sm, 'no events')
+        return
+
+    try:
+        bval, sigb, a_m, siga_m = context.map_sc['recurrence'](
             context.current_filtered_eq[:,
                 CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
             context.current_filtered_eq[:, CATALOG_MATRIX_MW_INDEX],
@@ -315,6 +331,13 @@ def recurrence(context):
             context.config['Recurrence']['recurrence_algorithm'],
             context.config['Recurrence']['reference_magnitude'],
             context.config['Recurrence']['time_window'])
+    except ValueError as error:
+        _warn_not_possible('Recurrence', context.cur_sm, error)
+        return
+
+    if not np.all(np.isfinite([bval, sigb, a_m, siga_m])):
+        _warn_not_possible('Recurrence', context.cur_sm, 'too few events')
+        return
 
     t = context.cur_sm.rupture_rate_model.truncated_gutenberg_richter._replace(
         a_value=a_m,
@@ -341,6 +364,11 @@ def maximum_magnitude(context):
     :param context: shared datastore across different jobs
         in a pipeline
     """
+
+    if not len(context.current_filtered_eq):
+        _warn_not_possible('Maximum magnitude', context.cur_sm, 'no events')
+        return
+
     max_mag, max_mag_sigma = context.map_sc['maximum_magnitude'](
         context.current_filtered_eq[:,
             CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
@@ -353,6 +381,11 @@ def maximum_magnitude(context):
         context.config['MaximumMagnitude']['number_samples'],
         context.config['MaximumMagnitude']['number_bootstraps'])
 
+    if not np.isfinite(max_mag):
+        _warn_not_possible(
+            'Maximum magnitude', context.cur_sm, 'too few events')
+        return
+
     t = context.cur_sm.rupture_rate_model.truncated_gutenberg_richter._replace(
         max_magnitude=max_mag)
 
-- 
2.43.0


From eb651c684fe6a6ca02315bedcf1e3297fe8c0fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:23 +0000
Subject: [PATCH 19/36] fix: run without a result file

---
 main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 3d71eb7..8d03af5 100644
--- a/main.py
+++ b/main.py
@@ -54,5 +54,6 @@ if __name__ == '__main__':
         WORKFLOW = Workflow(PIPELINE_PREPROCESSING, PIPELINE_PROCESSING)
         WORKFLOW.start(CONTEXT, CATALOG_FILTER)
 
-        WRITER = AreaSourceWriter(CONTEXT.config['result_file'])
-        WRITER.serialize(CONTEXT.sm_definitions)
+        if CONTEXT.config['result_file']:
+            WRITER = AreaSourceWriter(CONTEXT.config['result_file'])
+            WRITER.serialize(CONTEXT.sm_definitions)
-- 
2.43.0


From 72ec21b23eb92c2bfd688c94bc3fdbb94137ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:00 +0000
Subject: [PATCH 20/36] fix: area sources without their optional name, srsName
 or types

---
 nrml/reader.py |  4 ++--
 nrml/writer.py | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/nrml/reader.py b/nrml/reader.py
index 65db6e2..5ac6dd8 100644
--- a/nrml/reader.py
+++ b/nrml/reader.py
@@ -97,8 +97,8 @@ def _parse_area_source(as_elem):
     area_source.area_source_id = as_elem.get(
         nrml_xml.GML_ID)
 
-    area_source.name = as_elem.find(
-        nrml_xml.GML_NAME).text
+    area_source.name = as_elem.findtext(
+        nrml_xml.GML_NAME)
 
     area_source.tectonic_region = as_elem.find(
         nrml_xml.TECTONIC_REGION).text
diff --git a/nrml/writer.py b/nrml/writer.py
index f51163f..d47ae19 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -118,9 +118,10 @@ def _area_source_elem(area_source):
     area_source_elem = etree.Element(nrml_xml.AREA_SOURCE)
     area_source_elem.attrib[nrml_xml.GML_ID] = area_source.area_source_id
 
-    name_elem = etree.SubElement(
-        area_source_elem, nrml_xml.GML_NAME)
-    name_elem.text = area_source.name
+    if area_source.name is not None:
+        name_elem = etree.SubElement(
+            area_source_elem, nrml_xml.GML_NAME)
+        name_elem.text = area_source.name
 
     tectonic_region_elem = etree.SubElement(
         area_source_elem, nrml_xml.TECTONIC_REGION)
@@ -163,7 +164,8 @@ def _write_area_boundary(container_elem, area_boundary):
 
     linear_ring_elem = etree.SubElement(
         exterior_elem, nrml_xml.LINEAR_RING)
-    linear_ring_elem.attrib[nrml_xml.SRS_NAME] = area_boundary.srs_name
+    if area_boundary.srs_name is not None:
+        linear_ring_elem.attrib[nrml_xml.SRS_NAME] = area_boundary.srs_name
 
     pos_list_elem = etree.SubElement(
         linear_ring_elem, nrml_xml.POS_LIST)
@@ -220,8 +222,9 @@ def _write_truncated_guten_richter(container_elem,
 
     truncatd_gutenberg_rich_elem = etree.SubElement(
         container_elem, nrml_xml.TRUNCATED_GUTEN_RICHTER)
-    truncatd_gutenberg_rich_elem.attrib[nrml_xml.TYPE] = \
-        truncated_gutenberg_richter.type_tgr
+    if truncated_gutenberg_richter.type_tgr is not None:
+        truncatd_gutenberg_rich_elem.attrib[nrml_xml.TYPE] = \
+            truncated_gutenberg_richter.type_tgr
 
     a_value_elem = etree.SubElement(
         truncatd_gutenberg_rich_elem, nrml_xml.A_VALUE_CUMULATIVE)
@@ -260,8 +263,9 @@ def _write_rupture_depth_distrib(container_elem,
 
     magnitude_elem = etree.SubElement(
         rupture_depth_distrib_elem, nrml_xml.MAGNITUDE)
-    magnitude_elem.attrib[nrml_xml.TYPE] = \
-        rupture_depth_dist.magnitude.type_mag
+    if rupture_depth_dist.magnitude.type_mag is not None:
+        magnitude_elem.attrib[nrml_xml.TYPE] = \
+            rupture_depth_dist.magnitude.type_mag
     magnitude_elem.text = ' '.join(
         (str(value) for value in
             rupture_depth_dist.magnitude.values))
-- 
2.43.0


From 9f7b6e4a66d94f4b5575ad17832354b6eae15faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:22 +0000
Subject: [PATCH 21/36] fix: Julian day of March to August of most century
 years

---
 mtoolkit/scientific/catalogue_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/catalogue_utilities.py b/mtoolkit/scientific/catalogue_utilities.py
index f9e1bfb..f58a3c2 100644
--- a/mtoolkit/scientific/catalogue_utilities.py
+++ b/mtoolkit/scientific/catalogue_utilities.py
@@ -111,7 +111,7 @@ def greg2julian(year, month, day, hour, minute, second):
     timeut = hour + (minute / 60.0) + (second / 3600.0)
     jd = (367.0 * year) - np.floor(7.0 * (year +
              np.floor((month + 9.0) / 12.0)) / 4.0) - np.floor(3.0 *
-             (np.floor((year + (month - 9.0) / 7.0) / 100.0) + 1.0) /
+             (np.floor((year + np.fix((month - 9.0) / 7.0)) / 100.0) + 1.0) /
              4.0) + np.floor((275.0 * month) / 9.0) + day +\
              1721028.5 + (timeut / 24.0)
     return jd
-- 
2.43.0


From 6aa848fdb71588fb6ddecf6339abdf1cc8218f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:22 +0000
Subject: [PATCH 22/36] fix: distance of antipodal locations

---
 mtoolkit/scientific/catalogue_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtoolkit/scientific/catalogue_utilities.py b/mtoolkit/scientific/catalogue_utilities.py
index f58a3c2..8d2499b 100644
--- a/mtoolkit/scientific/catalogue_utilities.py
+++ b/mtoolkit/scientific/catalogue_utilities.py
@@ -100,6 +100,8 @@ def haversine(lon1, lat1, lon2, lat2, radians=False, earth_rad=6371.227):
         dlon = lon1 - lon2[i]
         aval = (np.sin(dlat / 2.) ** 2.) + (np.cos(lat1) * np.cos(lat2[i]) *
              (np.sin(dlon / 2.) ** 2.))
+        # Rounding can take antipodal locations over one
+        aval = np.minimum(aval, 1.)
         distance[:, i] = (2. * earth_rad * np.arctan2(np.sqrt(aval),
                                                     np.sqrt(1 - aval))).T
         i += 1
-- 
2.43.0


From 0eb6389475fa26eef24fcebccd70e64d82687d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:47 +0000
Subject: [PATCH 23/36] fix: line number of an invalid record after blank lines

---
 mtoolkit/eqcatalog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 5f27abc..163c05f 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -142,8 +142,9 @@ class EqEntryReader(object):
         with valid values.
         """
         eq_reader = DictReader(self.eq_entries_source, fieldnames=FIELDNAMES)
-        # eq definitions start at line 2
-        for self.current_line, eq_line in enumerate(eq_reader, start=2):
+        for eq_line in eq_reader:
+            # eq definitions start at line 2, after the header
+            self.current_line = eq_reader.line_num + 1
             eq_entry = self.convert_values(eq_line)
             for field in eq_entry.keys():
                 if not self.check_map[field](field, eq_entry) and (field in
-- 
2.43.0


From 4397714cdec1279aba258ff15af033dede3f39e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:08 +0000
Subject: [PATCH 24/36] fix: Weichert reports an overflow instead of its
 garbage

---
 mtoolkit/scientific/recurrence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 47374cd..0eed1bb 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -356,7 +356,8 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
         betl = np.copy(beta)
         beta = beta - (dldb / d2ldb2)
         iteration += 1
-        if iteration > MAX_WEICHERT_ITERATIONS or not np.isfinite(beta):
+        if (iteration > MAX_WEICHERT_ITERATIONS or
+                not np.all(np.isfinite([beta, d2ldb2]))):
             raise ValueError('Weichert estimation does not converge')
         sigbeta = np.sqrt(-1. / d2ldb2)
         bval = beta / np.log(10.0)
-- 
2.43.0


From 7aee3645912dee8818021de9f5eaed42447a0d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:14 +0000
Subject: [PATCH 25/36] fix: length of a fault trace between antipodal points

---
 mtoolkit/geo/simple_fault.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtoolkit/geo/simple_fault.py b/mtoolkit/geo/simple_fault.py
index 8890cfd..313745a 100644
--- a/mtoolkit/geo/simple_fault.py
+++ b/mtoolkit/geo/simple_fault.py
@@ -97,6 +97,8 @@ class SimpleFaultGeo(object):
 
             a = sin(dlat / 2.0) ** 2 + (
                 (cos(lat1) * cos(lat2)) * (sin(dlon / 2.0) ** 2))
+            # Rounding can take antipodal points over one
+            a = min(a, 1.0)
 
             c = 2.0 * arctan2(sqrt(a), sqrt(1.0 - a))
 
-- 
2.43.0


From 7cbb7426cc95624957962a7fc521bc6e1222c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:15 +0000
Subject: [PATCH 26/36] fix: read values with comments in them completely

---
 nrml/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nrml/reader.py b/nrml/reader.py
index 5ac6dd8..43eec82 100644
--- a/nrml/reader.py
+++ b/nrml/reader.py
@@ -69,7 +69,9 @@ class NRMLReader(object):
         """
 
         with open(self.filename, 'rb') as nrml_file:
-            for source_model in etree.iterparse(nrml_file, schema=self.schema):
+            # A comment would split the value it is in
+            for source_model in etree.iterparse(nrml_file, schema=self.schema,
+                    remove_comments=True, remove_pis=True):
                 tag = source_model[XML_NODE].tag
                 if tag in self.tag_action:
                     yield self.tag_action[tag](source_model[XML_NODE])
-- 
2.43.0


From b43629b23da98120d5cf802944364b6365bafeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 27/36] fix: log the number of clusters also when every event
 is in one

---
 mtoolkit/jobs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index 94283a1..1a34e3c 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -163,7 +163,7 @@ def gardner_knopoff(context):
 
     LOGGER.debug(
         "* Number of clusters identified: %s" %
-        (np.size(np.unique(vcl), 0) - 1))
+        np.sum(np.unique(vcl) != 0))
 
 
 @logged_job
@@ -192,7 +192,7 @@ def afteran(context):
 
     LOGGER.debug(
         "* Number of clusters identified: %s" %
-        (np.size(np.unique(vcl), 0) - 1))
+        np.sum(np.unique(vcl) != 0))
 
 
 @logged_job
-- 
2.43.0


From d2ea54cea6e4103a6016f7fcaee1f961a29daa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 28/36] fix: count each completeness period once in the maximum
 likelihood recurrence, also where its rows are not next to each other

Without the increment lock Stepp's table can come back to an earlier year.
The loop skipped as many rows as the period has, so that it missed the
periods in between and counted the first one twice.
---
 mtoolkit/scientific/recurrence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 0eed1bb..1d1c310 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -200,6 +200,10 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
     mag_eq_tolerance = 1E-5
     while ival < np.shape(ctime)[0]:
         id0 = np.abs(ctime - ctime[ival]) < mag_eq_tolerance
+        if np.any(id0[:ival]):
+            # An earlier row has been of this period
+            ival += 1
+            continue
         m_c = np.min(cmag[id0])
         # Find events later than cut-off year, and with magnitude
         # greater than or equal to the corresponding completeness magnitude.
@@ -230,7 +234,7 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
             gr_pars = np.vstack([gr_pars, np.hstack([bval, sigma_b, rate,
                                                      sigrate])])
             neq = np.hstack([neq, np.sum(id1)])
-        ival = ival + np.sum(id0)
+        ival += 1
 
     # The nextapproach is to work out the average values of the G-R parameters
     # from these periods, weighted by the number of events in each period
-- 
2.43.0


From 8787c14bce0cbf7d14f91927f1282d01ec9d06a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:56 +0000
Subject: [PATCH 29/36] fix: refuse tectonic region weights that are not
 numbers

The comparison with a tolerance let NaN pass, which the sums never equalled
before.
---
 mtoolkit/geo/tectonic_region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/geo/tectonic_region.py b/mtoolkit/geo/tectonic_region.py
index 0bed3a5..4574ce9 100644
--- a/mtoolkit/geo/tectonic_region.py
+++ b/mtoolkit/geo/tectonic_region.py
@@ -149,13 +149,13 @@ class TectonicRegion(object):
         sum_weights_dlr = sum(dlr)
         tolerance = 1.0E-9
 
-        if abs(sum_weights_msr - 1.0) > tolerance:
+        if not abs(sum_weights_msr - 1.0) <= tolerance:
             raise ValueError('The sum of weights for magnitude scaling'
                             ' relations should be one')
-        if abs(sum_weights_smod - 1.0) > tolerance:
+        if not abs(sum_weights_smod - 1.0) <= tolerance:
             raise ValueError('The sum of weights for shear modulus'
                            ' should be one')
-        if abs(sum_weights_dlr - 1.0) > tolerance:
+        if not abs(sum_weights_dlr - 1.0) <= tolerance:
             raise ValueError('The sum of weights for displacement length ratio'
                             ' should be one')
 
-- 
2.43.0


From 7edd29d94ac5678cbadd4110d6307b853553f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:32 +0000
Subject: [PATCH 30/36] fix: count events at the edges of the recurrence bins
 in their own bin

Edges of bins such as 0.1 or 0.2 were off by rounding, so that events on
them were counted in the bin below, or dropped in the year of completeness.
---
 mtoolkit/scientific/recurrence.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 1d1c310..4c07631 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -115,8 +115,9 @@ def recurrence_table(mag, dmag, year):
     num_year = np.max(year) - np.min(year) + 1.
     upper_m = np.max(np.ceil(10.0 * mag) / 10.0)
     lower_m = np.min(np.floor(10.0 * mag) / 10.0)
-    mag_range = np.arange(lower_m, upper_m + (2 * dmag), dmag)
-    mval = mag_range[:-1] + (dmag / 2.0)
+    mag_range = np.around(np.arange(
+        lower_m, upper_m + (2 * dmag), dmag), decimals=10)
+    mval = np.around(mag_range[:-1] + (dmag / 2.0), decimals=10)
     # Find number of earthquakes inside range
     number_obs = np.histogram(mag, mag_range)[0]
     number_rows = np.shape(number_obs)[0]
@@ -278,9 +279,12 @@ def weichert_prep(year, fmag, ctime, cmag, d_m, d_t):
         'Completeness time and magnitude intervals not compatible')
 
     # Use 2d histogram to get overall density.
-    time_int = np.arange(np.min(year), np.max(year) + 1.5 * d_t, d_t)
+    time_int = np.around(np.arange(
+        np.min(year), np.max(year) + 1.5 * d_t, d_t), decimals=10)
+    time_int[0] = np.min(year)
     fmag = np.around(fmag, decimals=1)
-    mag_int = np.arange(np.min(fmag), np.max(fmag) + 1.5 * d_m, d_m)
+    mag_int = np.around(np.arange(
+        np.min(fmag), np.max(fmag) + 1.5 * d_m, d_m), decimals=10)
     fullcount1 = np.histogram2d(year, fmag,
                                 bins=[time_int, mag_int])[0]
     # Now remove events below the completeness intervals
-- 
2.43.0


From f405226fc4f901b322ab5b2c64bc29a50ead3dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:32 +0000
Subject: [PATCH 31/36] fix: Stepp bins with decimal edges, and at least one of
 them

Rounding put events on an edge in the bin below and added a bin above the
largest magnitude; events of a single magnitude had no bin.
---
 mtoolkit/scientific/completeness.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/completeness.py b/mtoolkit/scientific/completeness.py
index 977cc09..775b032 100644
--- a/mtoolkit/scientific/completeness.py
+++ b/mtoolkit/scientific/completeness.py
@@ -60,8 +60,9 @@ def stepp_analysis(year, mw, dm=0.1, dt=1, ttol=0.2, iloc=True):
     mw = np.around(100.0 * mw) / 100.0
     lowm = np.floor(10. * np.min(mw)) / 10.
     highm = np.ceil(10. * np.max(mw)) / 10.
-    # Determine magnitude bins
-    mbin = np.arange(lowm, highm + dm, dm)
+    # Determine magnitude bins, at least one, with decimal edges
+    highm = max(highm, lowm + dm)
+    mbin = np.around(np.arange(lowm, highm + dm - 1E-9, dm), decimals=10)
     ntb = np.max(np.shape(mbin))
     # Determine time bins
     end_time = np.max(year)
-- 
2.43.0


From 1708bfe431b8502a01b832fde128b4e5452f74b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:32 +0000
Subject: [PATCH 32/36] fix: no bin of fault rates at the largest magnitude
 because of rounding

---
 mtoolkit/scientific/fault_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/fault_calculator.py b/mtoolkit/scientific/fault_calculator.py
index cf0cb1e..2678ea3 100644
--- a/mtoolkit/scientific/fault_calculator.py
+++ b/mtoolkit/scientific/fault_calculator.py
@@ -77,7 +77,7 @@ def get_mfd(slip, aseismic_coef, tectonic_region, sf_geo, b_value,
     dbar = moment_scaling[1] * np.log(10.0)
     bbar = b_value * np.log(10.0)
     mag = np.arange(min_mag - (bin_width / 2.),
-            max_mag + (1.5 * bin_width), bin_width)
+            max_mag + (1.5 * bin_width) - 1E-9, bin_width)
 
     seismic_slip = slip * (1.0 - aseismic_coef)
     cumulative_values = [_cumulative_value(seismic_slip, max_mag, m,
-- 
2.43.0


From d2423cd6ab824eb6391607400e6e7ce155239b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:49 +0000
Subject: [PATCH 33/36] fix: the number of Weichert's magnitude bins does not
 depend on rounding

---
 mtoolkit/scientific/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 4c07631..7da9d15 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -284,7 +284,7 @@ def weichert_prep(year, fmag, ctime, cmag, d_m, d_t):
     time_int[0] = np.min(year)
     fmag = np.around(fmag, decimals=1)
     mag_int = np.around(np.arange(
-        np.min(fmag), np.max(fmag) + 1.5 * d_m, d_m), decimals=10)
+        np.min(fmag), np.max(fmag) + 1.5 * d_m - 1E-9, d_m), decimals=10)
     fullcount1 = np.histogram2d(year, fmag,
                                 bins=[time_int, mag_int])[0]
     # Now remove events below the completeness intervals
-- 
2.43.0


From e9a3be0f3728b538ff42d777f71155815cf13ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:36 +0000
Subject: [PATCH 34/36] fix: a pipeline keeps a list of jobs of its own

---
 mtoolkit/workflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/workflow.py b/mtoolkit/workflow.py
index b41451c..55a5a6b 100644
--- a/mtoolkit/workflow.py
+++ b/mtoolkit/workflow.py
@@ -64,7 +64,7 @@ class PipeLine(object):
 
         self.jobs = []
         if jobs_list != None:
-            self.jobs = jobs_list
+            self.jobs = list(jobs_list)
 
     def __eq__(self, other):
         """Equal operator for pipeline"""
-- 
2.43.0


From dcec26adc6e1d59cd2593d14f854bfc53bff8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:34 +0000
Subject: [PATCH 35/36] fix: Gardner-Knopoff clusters take events as large as
 the main one

Of two events of the same magnitude the one later in the catalogue was taken
first, and was not a candidate for the cluster of the other one any more.
---
 mtoolkit/scientific/declustering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 862289e..dd501e8 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -195,7 +195,7 @@ def gardner_knopoff_decluster(
     flagvector = np.zeros(neq, dtype=int)
     #Begin cluster identification
     clust_index = 0
-    for i in range(0, neq - 1):
+    for i in range(0, neq):
         if vcl[i] == 0:
             # Find Events inside both fore- and aftershock time windows
             dt = year_dec - year_dec[i]
@@ -203,7 +203,7 @@ def gardner_knopoff_decluster(
                                               dt <= sw_time[i])
             # Only events not in a cluster yet, nor larger than this one
             vsel = np.logical_and(vsel, vcl == 0)
-            vsel[:i] = False
+            vsel = np.logical_and(vsel, m <= m[i])
             # Of those events inside time window, find those inside distance
             # window
             vsel1 = haversine(
-- 
2.43.0


From 4e0ef60c19646e4ac9bac32b534ea162b4ac5f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:34 +0000
Subject: [PATCH 36/36] fix: Afteran clusters take events as large as the main
 one

An event of the same magnitude that was examined before, without a cluster,
was not a candidate for later ones any more.
---
 mtoolkit/scientific/declustering.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index dd501e8..4f63c9b 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -357,7 +357,10 @@ def afteran_decluster(
             # Select earthquakes inside distance window and not in cluster
             vsel = np.logical_and(mdist <= sw_space[i], vcl == 0).flatten()
             # The main event is the largest of its cluster
-            vsel[:i] = False
+            vsel = np.logical_and(vsel, mag <= mag[i])
+            # It is the first one of the events selected
+            vsel[i] = False
+            vsel = np.hstack([i, np.nonzero(vsel)[0]])
             dtime = year_dec[vsel] - year_dec[i]
 
             nval = np.shape(dtime)[0]  # Number of events inside valid window
@@ -366,19 +369,15 @@ def afteran_decluster(
             vsel1 = _find_aftershocks(dtime, nval, time_window)
             vsel2 = _find_foreshocks(dtime, nval, time_window, vsel1)
 
-            temp_vsel = np.copy(vsel)
-            temp_vsel[vsel] = np.logical_or(vsel1, vsel2)
-            if np.shape(np.nonzero(temp_vsel)[0])[0] > 1:
+            temp_vsel = vsel[np.logical_or(vsel1, vsel2)]
+            if np.shape(temp_vsel)[0] > 1:
                 # Contains clustered events - allocate a cluster index
                 vcl[temp_vsel] = clust_index + 1
                 # Remove mainshock from cluster
                 vsel1[0] = False
                 # Assign markers to aftershocks and foreshocks
-                temp_vsel = np.copy(vsel)
-                temp_vsel[vsel] = vsel1
-                flagvector[temp_vsel] = 1
-                vsel[vsel] = vsel2
-                flagvector[vsel] = -1
+                flagvector[vsel[vsel1]] = 1
+                flagvector[vsel[vsel2]] = -1
                 clust_index += 1
         i += 1
 
-- 
2.43.0

