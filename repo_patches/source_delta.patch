From 88abd62ae5ae337e67b033085e2e8536c83c5fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:51 +0000
Subject: [PATCH 01/20] fix: do not order blank catalogue fields against
 numbers

A blank optional field is represented by an empty string; comparing it
with a number raises TypeError on the supported build (2to3 translation),
so every catalogue with a blank optional field was unreadable.
---
 mtoolkit/eqcatalog.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 723bf19..a492ab5 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -212,7 +212,9 @@ class EqEntryReader(object):
 
         if field in self.compulsory_fields:
             return eq_entry[field] > 0
-        if eq_entry[field] < 0:
+        if eq_entry[field] != EqEntryReader.EMPTY_STRING and \
+            eq_entry[field] < 0:
+
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -260,7 +262,9 @@ class EqEntryReader(object):
         of the value in the eq_entry.
         """
 
-        if not 0 <= eq_entry[field] <= 59:
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 59:
+
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -287,7 +291,8 @@ class EqEntryReader(object):
         (i.e. ErrorStrike, SemiMinor90, SemiMajor90).
         """
 
-        if not 0 <= eq_entry[field] <= 360 or \
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 360 or \
             eq_entry['SemiMinor90'] == EqEntryReader.EMPTY_STRING or \
             eq_entry['SemiMajor90'] == EqEntryReader.EMPTY_STRING or \
             not (eq_entry['SemiMinor90'] <= eq_entry['SemiMajor90']):
-- 
2.43.0


From 528ad9de2b584dee1bb0b9757e884d2fb607418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 02/20] fix: do not use the removed alias np.float

numpy dropped it; every recurrence (MLE) and maximum magnitude run failed
with AttributeError.
---
 mtoolkit/scientific/maximum_magnitude.py | 8 ++++----
 mtoolkit/scientific/recurrence.py        | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index ea5f84f..03d5a8c 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -57,7 +57,7 @@ def h_smooth(mag):
     :rtype hfact: Float
     """
 
-    neq = np.float(np.shape(mag)[0])
+    neq = float(np.shape(mag)[0])
 
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
@@ -204,12 +204,12 @@ def kijko_nonparametric_gauss(mag, mag_sig, neq,
     # Find number_eqs largest events
     if np.shape(mag)[0] <= neq:
         # Catalogue smaller than number of required events
-        neq = np.float(np.shape(mag)[0])
+        neq = float(np.shape(mag)[0])
     else:
         # Select number_eqs largest events
         mag = np.sort(mag, kind='quicksort')
         mag = mag[-neq:]
-        neq = np.float(neq)
+        neq = float(neq)
 
     mmin = np.min(mag)
     # Get smoothing factor
@@ -252,7 +252,7 @@ def cumulative_moment(year, mag):
     # Calculate seismic moment
     m_o = 10. ** (9.05 + 1.5 * mag)
     year_range = np.arange(np.min(year), np.max(year) + 1, 1)
-    nyr = np.float(np.shape(year_range)[0])
+    nyr = float(np.shape(year_range)[0])
     morate = np.zeros(nyr, dtype=float)
     # Get moment release per year
     for loc, tyr in enumerate(year_range):
diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index af60234..609ecb4 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -205,15 +205,15 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
         # differences.
         id1 = np.logical_and(year >= ctime[ival],
                     mag >= (m_c - mag_eq_tolerance))
-        nyr = np.float(np.max(year[id1]) - np.min(year[id1]) + 1)
+        nyr = float(np.max(year[id1]) - np.min(year[id1]) + 1)
 
         # Get a- and b- value for the selected events
         temp_rec_table = recurrence_table(mag[id1], dmag, year[id1])
         bval, sigma_b = b_max_likelihood(temp_rec_table[:, 0],
                                          temp_rec_table[:, 1], dmag, m_c)
 
-        aval = np.log10(np.float(np.sum(id1)) / nyr) + bval * m_c
-        sigma_a = np.abs(np.log10(np.float(np.sum(id1)) / nyr) +
+        aval = np.log10(float(np.sum(id1)) / nyr) + bval * m_c
+        sigma_a = np.abs(np.log10(float(np.sum(id1)) / nyr) +
             (bval + sigma_b) * ref_mag - aval)
 
         # Calculate reference rate
-- 
2.43.0


From 5183e5a42bf3723cfda13313dac33ea91c732069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 03/20] fix: size the yearly moment vector with an integer

np.zeros and np.ones reject a float length, so the Cumulative_Moment
estimator always failed.
---
 mtoolkit/scientific/maximum_magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index 03d5a8c..62bb6ea 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -252,7 +252,7 @@ def cumulative_moment(year, mag):
     # Calculate seismic moment
     m_o = 10. ** (9.05 + 1.5 * mag)
     year_range = np.arange(np.min(year), np.max(year) + 1, 1)
-    nyr = float(np.shape(year_range)[0])
+    nyr = np.shape(year_range)[0]
     morate = np.zeros(nyr, dtype=float)
     # Get moment release per year
     for loc, tyr in enumerate(year_range):
-- 
2.43.0


From d955d202ec6a47e2c991d4a0bfaddb3cda9994ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:44 +0000
Subject: [PATCH 04/20] fix: do not compare the function np.std with a number
 in h_smooth

The minimum of the function object np.std and the scaled inter-quartile
range was always the latter on Python 2 (the value the QA test pins) and
is a TypeError on the supported build. Keep the value, drop the comparison.
---
 mtoolkit/scientific/maximum_magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index 62bb6ea..2964e4e 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -62,7 +62,7 @@ def h_smooth(mag):
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
     iqr = qtiles[1] - qtiles[0]
-    hfact = 0.9 * np.min([np.std, iqr / 1.34]) * (neq ** (-1. / 5.))
+    hfact = 0.9 * (iqr / 1.34) * (neq ** (-1. / 5.))
     # Round h to 2 dp
     hfact = np.round(100. * hfact) / 100.
     return hfact
-- 
2.43.0


From 0118a6b0afd99c23af3388919843828438dc491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:44 +0000
Subject: [PATCH 05/20] fix: flatten the distance mask in Gardner-Knopoff
 declustering

haversine returns a column; assigning it through a one-dimensional mask is
rejected by numpy, so this declustering always failed.
---
 mtoolkit/scientific/declustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 3f0983a..2905a39 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -207,7 +207,7 @@ def gardner_knopoff_decluster(
             vsel1 = haversine(
                 catalog_matrix[vsel, 3], catalog_matrix[vsel, 4],
                 catalog_matrix[i, 3], catalog_matrix[i, 4]) <= sw_space[i]
-            vsel[vsel] = vsel1
+            vsel[vsel] = vsel1.flatten()
             temp_vsel = np.copy(vsel)
             temp_vsel[i] = False
             if any(temp_vsel):
-- 
2.43.0


From b35ab50afa32a93596715013315b66bc22dfc65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 06/20] fix: write the nrml result in binary mode and close it

lxml hands over bytes, which a text file rejects, so no result file could
be written; and the file was never closed explicitly, so an error of the
final flush (disk full) was lost and the run reported success with a
truncated result.
---
 nrml/writer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index d793fdc..9afd2b8 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -59,9 +59,10 @@ class AreaSourceWriter(object):
         root_elem = _write_body(root_elem, area_sources)
 
         tree = etree.ElementTree(root_elem)
-        tree.write(open(self.filename, 'w'),
-            xml_declaration=True, encoding='utf-8',
-            pretty_print=True)
+        with open(self.filename, 'wb') as nrml_file:
+            tree.write(nrml_file,
+                xml_declaration=True, encoding='utf-8',
+                pretty_print=True)
 
 
 def _write_header(area_sources):
-- 
2.43.0


From d90453ac14943aa132ebb7a6d1e651c6a937caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 07/20] fix: report the line of an unconvertible compulsory
 float field

The line number argument was missing, so a bad longitude, latitude, depth
or Mw raised a TypeError instead of the validation error.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index a492ab5..160ecc2 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -189,7 +189,7 @@ class EqEntryReader(object):
                 except ValueError:
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
-                            dict_fields_values[key])
+                            dict_fields_values[key], self.current_line)
                     else:
                         dict_fields_values[key] = EqEntryReader.EMPTY_STRING
 
-- 
2.43.0


From 40b5ac34d858b2f13929798828083435bbd3a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 08/20] fix: reject a day below 1 in February as in any other
 month

---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 160ecc2..561e9dd 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -237,7 +237,7 @@ class EqEntryReader(object):
         Return a bool stating if check is passed.
         """
 
-        return (eq_entry['month'] == 2 and eq_entry[field] <= 29)\
+        return (eq_entry['month'] == 2 and 1 <= eq_entry[field] <= 29)\
             or (eq_entry['month'] != 2 and 1 <= eq_entry[field] <= 31)
 
     def check_hour(self, field, eq_entry):
-- 
2.43.0


From 3ab2e29c8e921658d7fa4a4c0d27267ad258fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 09/20] fix: treat rows with missing or surplus columns as the
 documentation says

A missing value is read as None, which int() and float() reject with
TypeError rather than ValueError, and a surplus one ended in KeyError:
both now follow the documented rule (validation error naming the line, or
a blank optional field).
---
 mtoolkit/eqcatalog.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 561e9dd..098da62 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -144,6 +144,10 @@ class EqEntryReader(object):
         eq_reader = DictReader(self.eq_entries_source, fieldnames=FIELDNAMES)
         # eq definitions start at line 2
         for self.current_line, eq_line in enumerate(eq_reader, start=2):
+            if None in eq_line:
+                # more values than the catalogue has columns
+                raise EqEntryValidationError(None, eq_line[None],
+                    self.current_line)
             eq_entry = self.convert_values(eq_line)
             for field in eq_entry.keys():
                 if not self.check_map[field](field, eq_entry) and (field in
@@ -176,7 +180,7 @@ class EqEntryReader(object):
                 try:
                     dict_fields_values[key] = int(
                         dict_fields_values[key])
-                except ValueError:
+                except (ValueError, TypeError):
                     # fields in self.to_int are all compulsory
                     raise EqEntryValidationError(key,
                             dict_fields_values[key], self.current_line)
@@ -186,7 +190,7 @@ class EqEntryReader(object):
                 try:
                     dict_fields_values[key] = float(
                         dict_fields_values[key])
-                except ValueError:
+                except (ValueError, TypeError):
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
                             dict_fields_values[key], self.current_line)
-- 
2.43.0


From ebbfc36c4e5e011c5ba801634d1dc385e0ee7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 10/20] fix: accept an output file name without a directory

dirname of a bare file name is empty and does not 'exist', so the whole
computation was lost with an 'invalid dir' error when the result was to be
written in the working directory.
---
 mtoolkit/eqcatalog.py | 2 +-
 nrml/writer.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 098da62..f93f7fc 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -345,7 +345,7 @@ class EqEntryWriter(object):
     """
 
     def __init__(self, output_filename):
-        output_dir = os.path.dirname(output_filename)
+        output_dir = os.path.dirname(output_filename) or os.curdir
         if not os.path.exists(output_dir):
             raise IOError('Invalid dir: %s' % output_dir)
         self.output_filename = output_filename
diff --git a/nrml/writer.py b/nrml/writer.py
index 9afd2b8..df6a18f 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -42,7 +42,7 @@ class AreaSourceWriter(object):
         :type filename: string
         """
 
-        dirname = os.path.dirname(filename)
+        dirname = os.path.dirname(filename) or os.curdir
         if not os.path.exists(dirname):
             raise IOError('Dir %s not found' %
                 (os.path.abspath(dirname), ))
-- 
2.43.0


From 9a87e65100297bec875ef7f9f2711393c6991c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 11/20] fix: replace the source definitions also when a
 document has none

A model without area sources left the definitions of the previous run in a
reused context (or None in a new one).
---
 mtoolkit/jobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index 40af0ad..ff53c8f 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -86,7 +86,7 @@ def read_source_model(context):
     for sm in reader.read():
         sm_definitions.append(sm)
 
-        context.sm_definitions = sm_definitions
+    context.sm_definitions = sm_definitions
 
     LOGGER.debug("* Eq number source models: %s" % len(context.sm_definitions))
 
-- 
2.43.0


From 8d8fd6932be335735f8271ec55b4990aa8dcf9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:25 +0000
Subject: [PATCH 12/20] fix: stop the Weichert iteration when the events allow
 no solution

---
 mtoolkit/scientific/recurrence.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 609ecb4..bee1c1d 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -312,7 +312,8 @@ def weichert_prep(year, fmag, ctime, cmag, d_m, d_t):
     return cent_mag, t_per, n_obs
 
 
-def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
+def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5,
+             itmax=1000):
     """
     Weichert algorithm
 
@@ -328,13 +329,24 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
     :type beta: float
     :keyword itstab: stabilisation tolerance
     :type itstab: float
-    :returns: b-value, sigma_b, a-value, sigma_a
+    :keyword itmax: maximum number of iterations
+    :type itmax: int
+    :returns: b-value, sigma_b, a-value, sigma_a (NaN if the events are
+              too few to fit the parameters)
     :rtype: float
     """
 
+    if np.shape(fmag)[0] < 2:
+        return np.nan, np.nan, np.nan, np.nan
+
     d_m = fmag[1] - fmag[0]
     itbreak = 0
+    iterations = 0
     while (itbreak != 1):
+        iterations += 1
+        if iterations > itmax or not np.isfinite(beta):
+            # no solution: the iteration diverges
+            return np.nan, np.nan, np.nan, np.nan
         snm = np.sum(nobs * fmag)
         nkount = np.sum(nobs)
         tjexp = tper * np.exp(-beta * fmag)
-- 
2.43.0


From 062a70ed96034797dc66f0731bf375926c813e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:25 +0000
Subject: [PATCH 13/20] fix: skip completeness periods without events in the
 MLE recurrence

---
 mtoolkit/scientific/recurrence.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index bee1c1d..e310017 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -190,10 +190,12 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
     :type dmag: positive float
     :keyword ref_mag: reference magnitude
     :type ref_mag: float
-    :returns: b-value, sigma_b, a-value, sigma_a
+    :returns: b-value, sigma_b, a-value, sigma_a (NaN if no event is in
+              the complete part of the catalogue)
     :rtype: float
     """
 
+    gr_pars = None
     ival = 0
     mag_eq_tolerance = 1E-5
     while ival < np.shape(ctime)[0]:
@@ -205,6 +207,10 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
         # differences.
         id1 = np.logical_and(year >= ctime[ival],
                     mag >= (m_c - mag_eq_tolerance))
+        if not np.any(id1):
+            # No event in this period, nothing to average
+            ival = ival + np.sum(id0)
+            continue
         nyr = float(np.max(year[id1]) - np.min(year[id1]) + 1)
 
         # Get a- and b- value for the selected events
@@ -221,7 +227,7 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
         sigrate = 10.0 ** ((aval + sigma_a) - (bval * ref_mag) -
             np.log10(rate))
 
-        if ival == 0:
+        if gr_pars is None:
             gr_pars = np.array([np.hstack([bval, sigma_b, rate, sigrate])])
             neq = np.sum(id1)  # Number of events
         else:
@@ -230,6 +236,9 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
             neq = np.hstack([neq, np.sum(id1)])
         ival = ival + np.sum(id0)
 
+    if gr_pars is None:
+        return np.nan, np.nan, np.nan, np.nan
+
     # The nextapproach is to work out the average values of the G-R parameters
     # from these periods, weighted by the number of events in each period
     neq = neq.astype(float) / np.sum(neq)
-- 
2.43.0


From 126b5913885c805ad27eda6ee4bc17d742fa406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:25 +0000
Subject: [PATCH 14/20] fix: keep the input values of a zone whose events allow
 no calculation

---
 mtoolkit/jobs.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index ff53c8f..6fecad1 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -306,6 +306,11 @@ def recurrence(context):
         in a pipeline
     """
 
+    if len(context.current_filtered_eq) == 0:
+        LOGGER.warning("No events in the zone: recurrence not possible, "
+            "values not overwritten")
+        return
+
     bval, sigb, a_m, siga_m = context.map_sc['recurrence'](
             context.current_filtered_eq[:,
                 CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
@@ -316,6 +321,11 @@ def recurrence(context):
             context.config['Recurrence']['reference_magnitude'],
             context.config['Recurrence']['time_window'])
 
+    if not (np.isfinite(bval) and np.isfinite(a_m)):
+        LOGGER.warning("Too few events in the zone: recurrence not possible, "
+            "values not overwritten")
+        return
+
     t = context.cur_sm.rupture_rate_model.truncated_gutenberg_richter._replace(
         a_value=a_m,
         b_value=bval,
@@ -341,6 +351,12 @@ def maximum_magnitude(context):
     :param context: shared datastore across different jobs
         in a pipeline
     """
+
+    if len(context.current_filtered_eq) == 0:
+        LOGGER.warning("No events in the zone: maximum magnitude not "
+            "possible, value not overwritten")
+        return
+
     max_mag, max_mag_sigma = context.map_sc['maximum_magnitude'](
         context.current_filtered_eq[:,
             CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
@@ -353,6 +369,11 @@ def maximum_magnitude(context):
         context.config['MaximumMagnitude']['number_samples'],
         context.config['MaximumMagnitude']['number_bootstraps'])
 
+    if not np.isfinite(max_mag):
+        LOGGER.warning("Too few events in the zone: maximum magnitude not "
+            "possible, value not overwritten")
+        return
+
     t = context.cur_sm.rupture_rate_model.truncated_gutenberg_richter._replace(
         max_magnitude=max_mag)
 
-- 
2.43.0


From bd06ada0df4cd31971c4d4c2053e3a3c238f8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:22 +0000
Subject: [PATCH 15/20] fix: read a value of a source model past a comment or
 an instruction in it

---
 nrml/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrml/reader.py b/nrml/reader.py
index 65db6e2..188f86a 100644
--- a/nrml/reader.py
+++ b/nrml/reader.py
@@ -69,7 +69,8 @@ class NRMLReader(object):
         """
 
         with open(self.filename, 'rb') as nrml_file:
-            for source_model in etree.iterparse(nrml_file, schema=self.schema):
+            for source_model in etree.iterparse(nrml_file, schema=self.schema,
+                remove_comments=True, remove_pis=True):
                 tag = source_model[XML_NODE].tag
                 if tag in self.tag_action:
                     yield self.tag_action[tag](source_model[XML_NODE])
-- 
2.43.0


From 0fd1d21b19c2f5abf1749025e61239fce6da9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:24 +0000
Subject: [PATCH 16/20] fix: leave out optional attributes that a source does
 not have

---
 nrml/writer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index df6a18f..fe855b6 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -163,7 +163,8 @@ def _write_area_boundary(container_elem, area_boundary):
 
     linear_ring_elem = etree.SubElement(
         exterior_elem, nrml_xml.LINEAR_RING)
-    linear_ring_elem.attrib[nrml_xml.SRS_NAME] = area_boundary.srs_name
+    if area_boundary.srs_name is not None:
+        linear_ring_elem.attrib[nrml_xml.SRS_NAME] = area_boundary.srs_name
 
     pos_list_elem = etree.SubElement(
         linear_ring_elem, nrml_xml.POS_LIST)
@@ -220,8 +221,9 @@ def _write_truncated_guten_richter(container_elem,
 
     truncatd_gutenberg_rich_elem = etree.SubElement(
         container_elem, nrml_xml.TRUNCATED_GUTEN_RICHTER)
-    truncatd_gutenberg_rich_elem.attrib[nrml_xml.TYPE] = \
-        truncated_gutenberg_richter.type_tgr
+    if truncated_gutenberg_richter.type_tgr is not None:
+        truncatd_gutenberg_rich_elem.attrib[nrml_xml.TYPE] = \
+            truncated_gutenberg_richter.type_tgr
 
     a_value_elem = etree.SubElement(
         truncatd_gutenberg_rich_elem, nrml_xml.A_VALUE_CUMULATIVE)
@@ -260,8 +262,9 @@ def _write_rupture_depth_distrib(container_elem,
 
     magnitude_elem = etree.SubElement(
         rupture_depth_distrib_elem, nrml_xml.MAGNITUDE)
-    magnitude_elem.attrib[nrml_xml.TYPE] = \
-        rupture_depth_dist.magnitude.type_mag
+    if rupture_depth_dist.magnitude.type_mag is not None:
+        magnitude_elem.attrib[nrml_xml.TYPE] = \
+            rupture_depth_dist.magnitude.type_mag
     magnitude_elem.text = ' '.join(
         (str(value) for value in
             rupture_depth_dist.magnitude.values))
-- 
2.43.0


From 7674924914cdf9beca903866f5ea915e90823a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:23 +0000
Subject: [PATCH 17/20] fix: spell infinite values and NaN as XML Schema
 requires

---
 nrml/writer.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index fe855b6..40c7821 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -65,6 +65,20 @@ class AreaSourceWriter(object):
                 pretty_print=True)
 
 
+def _number(value):
+    """
+    Spell a number as XML Schema requires it, which
+    differs from python for infinite values and NaN.
+    :param value: number to be written
+    :type value: float
+    :returns: text of the number
+    :rtype: string
+    """
+
+    text = str(value)
+    return {'inf': 'INF', '-inf': '-INF', 'nan': 'NaN'}.get(text, text)
+
+
 def _write_header(area_sources):
     """
     Create nrml header elems
@@ -136,7 +150,7 @@ def _area_source_elem(area_source):
 
     hypocentral_depth_elem = etree.SubElement(
         area_source_elem, nrml_xml.HYPOCENTRAL_DEPTH)
-    hypocentral_depth_elem.text = str(
+    hypocentral_depth_elem.text = _number(
         area_source.hypocentral_depth)
 
     return area_source_elem
@@ -174,7 +188,7 @@ def _write_area_boundary(container_elem, area_boundary):
         pos_list.append(point.lon)
         pos_list.append(point.lat)
     pos_list_elem.text = ' '.join(
-        (str(value) for value in pos_list))
+        (_number(value) for value in pos_list))
 
 
 def _write_rupture_rate_model(container_elem,
@@ -196,15 +210,15 @@ def _write_rupture_rate_model(container_elem,
 
     strike_elem = etree.SubElement(
             rupture_rate_model_elem, nrml_xml.STRIKE)
-    strike_elem.text = str(rupture_rate_model.strike)
+    strike_elem.text = _number(rupture_rate_model.strike)
 
     dip_elem = etree.SubElement(
             rupture_rate_model_elem, nrml_xml.DIP)
-    dip_elem.text = str(rupture_rate_model.dip)
+    dip_elem.text = _number(rupture_rate_model.dip)
 
     rake_elem = etree.SubElement(
             rupture_rate_model_elem, nrml_xml.RAKE)
-    rake_elem.text = str(rupture_rate_model.rake)
+    rake_elem.text = _number(rupture_rate_model.rake)
 
 
 def _write_truncated_guten_richter(container_elem,
@@ -228,21 +242,21 @@ def _write_truncated_guten_richter(container_elem,
     a_value_elem = etree.SubElement(
         truncatd_gutenberg_rich_elem, nrml_xml.A_VALUE_CUMULATIVE)
     a_value_elem.text = \
-        str(truncated_gutenberg_richter.a_value)
+        _number(truncated_gutenberg_richter.a_value)
     b_value_elem = etree.SubElement(
         truncatd_gutenberg_rich_elem, nrml_xml.B_VALUE)
     b_value_elem.text = \
-        str(truncated_gutenberg_richter.b_value)
+        _number(truncated_gutenberg_richter.b_value)
 
     min_magnitude_elem = etree.SubElement(
         truncatd_gutenberg_rich_elem, nrml_xml.MIN_MAGNITUDE)
     min_magnitude_elem.text = \
-        str(truncated_gutenberg_richter.min_magnitude)
+        _number(truncated_gutenberg_richter.min_magnitude)
 
     max_magnitude_elem = etree.SubElement(
         truncatd_gutenberg_rich_elem, nrml_xml.MAX_MAGNITUDE)
     max_magnitude_elem.text = \
-        str(truncated_gutenberg_richter.max_magnitude)
+        _number(truncated_gutenberg_richter.max_magnitude)
 
 
 def _write_rupture_depth_distrib(container_elem,
@@ -266,11 +280,11 @@ def _write_rupture_depth_distrib(container_elem,
         magnitude_elem.attrib[nrml_xml.TYPE] = \
             rupture_depth_dist.magnitude.type_mag
     magnitude_elem.text = ' '.join(
-        (str(value) for value in
+        (_number(value) for value in
             rupture_depth_dist.magnitude.values))
 
     depth_elem = etree.SubElement(
         rupture_depth_distrib_elem, nrml_xml.DEPTH)
     depth_elem.text = ' '.join(
-        (str(value) for value in
+        (_number(value) for value in
             rupture_depth_dist.depth))
-- 
2.43.0


From b3babeb0ef1acbf5c876cc7b8ff0f2be61b0c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:53 +0000
Subject: [PATCH 18/20] fix: keep one magnitude bin in Stepp when all events
 have one magnitude

---
 mtoolkit/scientific/completeness.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mtoolkit/scientific/completeness.py b/mtoolkit/scientific/completeness.py
index afd3adf..89be9e9 100644
--- a/mtoolkit/scientific/completeness.py
+++ b/mtoolkit/scientific/completeness.py
@@ -60,6 +60,9 @@ def stepp_analysis(year, mw, dm=0.1, dt=1, ttol=0.2, iloc=True):
     mw = np.around(100.0 * mw) / 100.0
     lowm = np.floor(10. * np.min(mw)) / 10.
     highm = np.ceil(10. * np.max(mw)) / 10.
+    if highm <= lowm:
+        # Only one magnitude in the catalogue: there is still one bin
+        highm = lowm + 0.1
     # Determine magnitude bins
     mbin = np.arange(lowm, highm + dm, dm)
     ntb = np.max(np.shape(mbin))
-- 
2.43.0


From a3011bf855243976a08d51cc298fc7455af12222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 19/20] fix: the Kijko estimator reports its iteration limit
 through the logger

It printed to the standard output, so that a closed or full console made
the run fail (and the message never reached the debug log).
---
 mtoolkit/scientific/maximum_magnitude.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index 2964e4e..d095313 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -21,9 +21,12 @@ Module to implement statistically interpreted maximum magnitude
 estimation algorithms.
 """
 
+import logging
 import numpy as np
 from scipy.stats.mstats import mquantiles
 
+LOGGER = logging.getLogger('mt_logger')
+
 
 def maximum_magnitude_analysis(year_col, magnitude_col,
     sigma_mw, maxim_mag_algorithm, iteration_tolerance,
@@ -227,8 +230,8 @@ def kijko_nonparametric_gauss(mag, mag_sig, neq,
         mmax = np.copy(tmmax)
         j += 1
         if j > maximum_iterations:
-            print 'Kijko-Non-Parametric Gaussian estimator reached'
-            print 'maximum # of iterations'
+            LOGGER.warning('Kijko-Non-Parametric Gaussian estimator reached '
+                'maximum # of iterations')
             d_t = 0.5 * iteration_tolerance
     mmax_sig = np.sqrt(obsmaxsig ** 2. + delta ** 2.)
     # mmax[()] temporary fix, mmax is a numpy array not a float,
-- 
2.43.0


From 5097299a128fa34c1e64a7eeae7554aec6da73b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:05 +0000
Subject: [PATCH 20/20] fix: the number of clusters in the log was one too low
 when every event belonged to a cluster

The clusters were counted as the distinct cluster numbers less one, for the
number 0 of events outside clusters, which need not occur.
---
 mtoolkit/jobs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index 6fecad1..a51cd61 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -163,7 +163,7 @@ def gardner_knopoff(context):
 
     LOGGER.debug(
         "* Number of clusters identified: %s" %
-        (np.size(np.unique(vcl), 0) - 1))
+        np.sum(np.unique(vcl) != 0))
 
 
 @logged_job
@@ -192,7 +192,7 @@ def afteran(context):
 
     LOGGER.debug(
         "* Number of clusters identified: %s" %
-        (np.size(np.unique(vcl), 0) - 1))
+        np.sum(np.unique(vcl) != 0))
 
 
 @logged_job
-- 
2.43.0

