From c2bd60448dde066e13d20717b35b648e7cb22bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 01/46] fix: read both parts of complex node results

---
 freesif/sequentialparser/parsers.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index a1b33bd..afda98d 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1887,8 +1887,8 @@ atoms['RVNODACC'] = [('acc', tb.Float32Atom(), ())]
 atoms['RVNODDIS'] = [('dis', tb.Float32Atom(), ())]
 atoms['RVNODVEL'] = [('vel', tb.Float32Atom(), ())]
 
-# each row in a 'rvnodres' vlarray will have nres 32-bit floats, where
-# nres = (nfield - 5) / (icompl + 1). If results are complex the dtype should
+# each row in a 'rvnodres' vlarray will have nfield - 5 32-bit floats (two per
+# component if results are complex). If results are complex the dtype should
 # be changed from float32 to complex64 before use
 
 
@@ -1903,11 +1903,8 @@ def rvnodres_reader(rec_name, rec, in_file, out_file):
 
         rec += in_file.read_floats(1)
         nfield = int(rec[0])
-        ires = int(rec[1])
-        icompl = rdresref_data[ires]
-        nres = (nfield - 5) // (icompl + 1)
 
-        res.add(in_file.read_floats(nres))
+        res.add(in_file.read_floats(nfield - 5))
         recs.add(rec)
 
         rec_name, rec = in_file.read_headerrec()
-- 
2.43.0


From 70a484f0fbdf1ac5a473f6c9defeabc05cb99bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 02/46] fix: store shear factors and fillet radius of sections
 as floats

---
 freesif/sequentialparser/parsers.py | 42 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index afda98d..6de2a71 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1009,8 +1009,8 @@ class GBOX_rec(tb.IsDescription):
     t_b = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     by = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1026,8 +1026,8 @@ class GCHAN_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1045,11 +1045,11 @@ class GCHANR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
-    r = tb.Int32Col(pos=9)
+    r = tb.Float32Col(pos=9)
     nloby = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
 
@@ -1066,8 +1066,8 @@ class GDOBO_rec(tb.IsDescription):
     by = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     t_b = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1085,8 +1085,8 @@ class GIORH_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     nlobyt = tb.Int32Col(pos=9)
     nlobyb = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
@@ -1105,8 +1105,8 @@ class GIORHR_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     rt = tb.Float32Col(pos=9)
     rb = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
@@ -1125,8 +1125,8 @@ class GLSEC_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
@@ -1143,8 +1143,8 @@ class GLSECR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     r = tb.Float32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1161,8 +1161,8 @@ class GPIPE_rec(tb.IsDescription):
     di = tb.Float32Col(pos=1)
     dy = tb.Float32Col(pos=2)
     t = tb.Float32Col(pos=3)
-    sfy = tb.Int32Col(pos=4)
-    sfz = tb.Int32Col(pos=5)
+    sfy = tb.Float32Col(pos=4)
+    sfz = tb.Float32Col(pos=5)
     ncir = tb.Int32Col(pos=6)
     nrad = tb.Int32Col(pos=7)
 
@@ -1182,8 +1182,8 @@ class GUSYI_rec(tb.IsDescription):
     bb = tb.Float32Col(pos=6)
     b2 = tb.Float32Col(pos=7)
     t_b = tb.Float32Col(pos=8)
-    sfy = tb.Int32Col(pos=9)
-    sfz = tb.Int32Col(pos=10)
+    sfy = tb.Float32Col(pos=9)
+    sfz = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
     nlobyb = tb.Int32Col(pos=12)
     nlobz = tb.Int32Col(pos=13)
-- 
2.43.0


From 1950667450adf4986c77820baca9779ac2e1f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 03/46] fix: GUSYI has three optional fields

---
 freesif/sequentialparser/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 6de2a71..be00c90 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1189,7 +1189,7 @@ class GUSYI_rec(tb.IsDescription):
     nlobz = tb.Int32Col(pos=13)
 
 descriptors['GUSYI'] = GUSYI_rec
-readers['GUSYI'] = reader_optionalfields('GUSYI', GUSYI_rec, 8, 2)
+readers['GUSYI'] = reader_optionalfields('GUSYI', GUSYI_rec, 8, 3)
 
 
 # ---GSETMEMB---------------------------------------------------------------- #
-- 
2.43.0


From 04724f68c4dc7b4076081cffc89513e81e3fcf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 04/46] fix: correct the list of record names

---
 freesif/sequentialparser/sequentialfiles.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 85d2aa5..e493e6e 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -36,12 +36,12 @@ allowed_record_names_str = set([
 'RSUMMASS', 'RSUMREAC', 'RSUPTRAN', 'RVABSCIS', 'RVELNFOR', 'RVFORCES',
 'RVNODACC', 'RVNODDIS', 'RVNODVEL', 'RVNODREA', 'RVORDINA', 'RVSTRAIN',
 'RVSTRESS', 'TNODE', 'TELEMENT', 'TDRESREF', 'TDSERIES', 'TDSUPNAM',
-'W1EXFORC', 'W1MATRIX', 'WIMOTION','WISFORCE', 'W2EXFDIF', 'W2EXFSUM',
-'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFI', 'WBODCON', 'WBODY', 'WDRESREF',
+'W1EXFORC', 'W1MATRIX', 'W1MOTION', 'W1SFORCE', 'W2EXFDIF', 'W2EXFSUM',
+'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFT', 'WBODCON', 'WBODY', 'WDRESREF',
 'WFKPOINT', 'WFLUIDKN', 'WGLOBDEF', 'WGRESPON', 'WSCATTER', 'WSECTION',
 'WSURFACE', 'TDBODNAM', 'TDRSNAM', 'TDSCATTER', 'TDSCONC', 'SCONCEPT',
 'SCONMESH', 'SCONPLIS', 'SPROSELE', 'SPROMATR', 'SPROSEGM', 'SPROHYDR',
-'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE'])
+'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE', 'TDLOAD', 'WINPUT'])
 
 allowed_record_names_b = set([
 b'DATE', b'IDENT', b'IEND', b'TDMATER', b'TDSECT', b'TDSETNAM', b'TDSUPNAM',
@@ -68,12 +68,12 @@ b'RDRESREF', b'RDSERIES', b'RDSTRAIN', b'RDSTRESS', b'RDTRANS', b'RSUMLOAD',
 b'RSUMMASS', b'RSUMREAC', b'RSUPTRAN', b'RVABSCIS', b'RVELNFOR', b'RVFORCES',
 b'RVNODACC', b'RVNODDIS', b'RVNODVEL', b'RVNODREA', b'RVORDINA', b'RVSTRAIN',
 b'RVSTRESS', b'TNODE', b'TELEMENT', b'TDRESREF', b'TDSERIES', b'TDSUPNAM',
-b'W1EXFORC', b'W1MATRIX', b'WIMOTION','WISFORCE', b'W2EXFDIF', b'W2EXFSUM',
-b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFI', b'WBODCON', b'WBODY', b'WDRESREF',
+b'W1EXFORC', b'W1MATRIX', b'W1MOTION', b'W1SFORCE', b'W2EXFDIF', b'W2EXFSUM',
+b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFT', b'WBODCON', b'WBODY', b'WDRESREF',
 b'WFKPOINT', b'WFLUIDKN', b'WGLOBDEF', b'WGRESPON', b'WSCATTER', b'WSECTION',
 b'WSURFACE', b'TDBODNAM', b'TDRSNAM', b'TDSCATTER', b'TDSCONC', b'SCONCEPT',
 b'SCONMESH', b'SCONPLIS', b'SPROSELE', b'SPROMATR', b'SPROSEGM', b'SPROHYDR',
-b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE'])
+b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE', b'TDLOAD', b'WINPUT'])
 
 
 class SequentialFile(object):
-- 
2.43.0


From 6410c2e2120597e3dbd809133bc8d57f1b1c5671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 05/46] fix: skip the text lines of DATE and TEXT records

---
 freesif/sequentialparser/sequentialfiles.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index e493e6e..e569f7d 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -126,6 +126,12 @@ class SequentialFile(object):
                 self.read_stringrec()
             return self.read_headerrec()
 
+        # text lines do not look like continuation records:
+        if rec_name in ('DATE', 'TEXT'):
+            for i in range(int(rec[2])):
+                self.read_stringrec()
+            return self.read_headerrec()
+
         #read first record
         pos = self.f.tell()  # current position in in_file
         string_rec = self.read_stringrec()
-- 
2.43.0


From 66acf599961ab2b490e2ab408ac8e2a97f1bbf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 06/46] fix: do not read past sections without optional fields

---
 freesif/sequentialparser/parsers.py         | 8 ++++++--
 freesif/sequentialparser/sequentialfiles.py | 6 ++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index be00c90..c807c1d 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -390,8 +390,12 @@ def reader_optionalfields(record_name, descriptor, skipfirst=0, noptf=0):
 
             rec += in_file.read_floats(n_add_fl, skipfirst)
 
-            if not in_file.at_headerrec():
-                rec += in_file.read_floats(noptf, skipfirst)
+            # the last record before the next header may be filled up with
+            # less than noptf values
+            for _ in range(noptf):
+                if in_file.at_headerrec():
+                    break
+                rec += in_file.read_floats(1, skipfirst)
 
             # pad or remove values to match ncols
             if len(rec) != ncols:
diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index e569f7d..a4bdfaf 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -236,8 +236,7 @@ class UnformattedFile(SequentialFile):
 
         self.floatrest = floats[n:]
 
-        if len(self.floatrest) > 0:
-            self.hasrest = True
+        self.hasrest = len(self.floatrest) > 0
 
         return floats[:n]
 
@@ -326,8 +325,7 @@ class FormattedFile(SequentialFile):
 
         self.floatrest = floats[n:]
 
-        if len(self.floatrest) > 0:
-            self.hasrest = True
+        self.hasrest = len(self.floatrest) > 0
 
         return floats[:n]
 
-- 
2.43.0


From d0af7352afec1e33049d4e1cc2722cee2ddb9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 07/46] fix: make the write methods of FormattedFile work

---
 freesif/sequentialparser/sequentialfiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index a4bdfaf..c47b73c 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -356,7 +356,7 @@ class FormattedFile(SequentialFile):
             # self.write(' '*self.float_places_left*16 + '\n')
             self.f.write('\n')
 
-        self.write('{:<8}'.format(header))
+        self.f.write('{:<8}'.format(header))
         for f in rec:
             self.f.write('{:>16.8e}'.format(f))
 
@@ -369,6 +369,7 @@ class FormattedFile(SequentialFile):
             self.f.write('\n')
 
         self.f.write(' '*leading_blanks + string + '\n')
+        self.float_places_left = 0
 
     def write_floats(self, floats):
         if len(floats) == 0:
-- 
2.43.0


From b2d301fd3c85c61c1b815358b592c736e5cd34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 08/46] fix: refuse file names that only start like a SESAM
 file name

---
 freesif/data/helpers.py              | 4 ++--
 freesif/sequentialparser/sif2hdf5.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/helpers.py b/freesif/data/helpers.py
index b0dde68..0fba7f3 100644
--- a/freesif/data/helpers.py
+++ b/freesif/data/helpers.py
@@ -34,8 +34,8 @@ def parse_sifname(filename):
     name_pattern = '(?i)(?P<prefix>[\w-]*?)' + \
                    '(?P<letter>[rtgl])' + \
                    '(?P<selno>[1-9]\d*)' + \
-                   '(H[1-9]\d*)?.' + \
-                   '(?P<ext>(si[fun]|fem))'
+                   '(H[1-9]\d*)?\.' + \
+                   '(?P<ext>(si[fun]|fem))$'
 
     match = re.match(name_pattern, fname)
 
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index d2b8070..85e2677 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -178,8 +178,8 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
     name_pattern = '(?i)(?P<prefix>[\w-]*?)' + \
                    '(?P<letter>[rtgl])' + \
-                   '[1-9]\d*(H[1-9]\d*)?.' + \
-                   '(?P<ext>(si[fun]|fem))'
+                   '[1-9]\d*(H[1-9]\d*)?\.' + \
+                   '(?P<ext>(si[fun]|fem))$'
 
     match = re.match(name_pattern, fname)
 
-- 
2.43.0


From 6b3643d59f0d3b4059b40e2778f4199930bfc34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 09/46] fix: accept lower case file names

---
 freesif/data/file.py                 |  2 +-
 freesif/sequentialparser/sif2hdf5.py | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index d136794..792d279 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -39,7 +39,7 @@ def open_sif(filename):
 
     tbfile = sif2hdf5(filename, in_memory=True)
     prefix, letter, idno, ext = parse_sifname(filename)
-    groupname = prefix + letter + idno
+    groupname = prefix + letter.upper() + idno
     return File(tbfile)[groupname]
 
 def close_all_files():
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 85e2677..869a80e 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -198,7 +198,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     parsers.reset()
 
     # filetype identifier (T, L, R or G)
-    filetypeid = letter
+    filetypeid = letter.upper()
 
     # set group name prefix
     if usefileprefix:
@@ -253,15 +253,17 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
         hierarch_table = parsers.get_hierarch_table()
 
-        # generate candidate file names
+        # generate candidate file names (in the same case as the given name)
+        setcase = str.upper if letter.isupper() else str.lower
         fnames = []
         ihref = []
-        if extension in ('SIF', 'SIU'):  # structural results files
+        if extension.upper() in ('SIF', 'SIU'):  # structural results files
             for r in hierarch_table[1:]:
                 if r['islevl'] == 1:  # 1st level
                     fnames.append(fileprefix +
-                                  'R' + str(r['iselty']) +
-                                  'H' + str(r['ihref']) +
+                                  setcase('R') + str(r['iselty']) +
+                                  setcase('H') +
+                                  str(r['ihref']) +
                                   '.' + extension)
                     ihref.append(r['ihref'])
 
@@ -269,7 +271,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
             for r in hierarch_table[1:]:
                 if r['indsel'] == 1:  # skip additional repetitions
                     fnames.append(fileprefix +
-                                  'T' + str(r['iselty']) +
+                                  setcase('T') + str(r['iselty']) +
                                   '.' + extension)
                     ihref.append(r['ihref'])
 
-- 
2.43.0


From 5bc19fa75c8feb4963778e670137b4c7f8e27083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 10/46] fix: close the files when a conversion fails

---
 freesif/sequentialparser/sif2hdf5.py | 44 ++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 869a80e..ee88152 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -234,9 +234,37 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     # set filetypeid
     parsers.set_filetypeid(filetypeid)
 
+    try:
+        parse_files(in_file, out_file, only, is_formatted, fdir, fileprefix,
+                    letter, extension)
+    except BaseException:
+        out_file.close()  # or else the file cannot be written to any more
+        raise
+
+    if in_memory:
+        # TODO: is it possible to change mode to 'r' here ?
+        return out_file
+
+    out_file.close()
+
+    # return hdf5 file name (full path)
+    return path.abspath(hdf5name)
+
+
+def parse_file(in_file, out_file, only):
+    try:
+        parsers.parse_file(in_file, out_file, only)
+    finally:
+        in_file.close()
+
+
+def parse_files(in_file, out_file, only, is_formatted, fdir, fileprefix,
+                letter, extension):
+    """Parse the top level file and any lower level files
+    """
+
     # parse first file
-    parsers.parse_file(in_file, out_file, only)
-    in_file.close()
+    parse_file(in_file, out_file, only)
 
     # parse additional lower level files
 
@@ -290,17 +318,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
                 parsers.reset(reset_toplevel=False)
                 parsers.set_current_ihref(ihref[i])
-                parsers.parse_file(in_file, out_file, only)
-                in_file.close()
+                parse_file(in_file, out_file, only)
 
             else:
                 print('file not found: ' + fname)
-
-    if in_memory:
-        # TODO: is it possible to change mode to 'r' here ?
-        return out_file
-
-    out_file.close()
-
-    # return hdf5 file name (full path)
-    return path.abspath(hdf5name)
-- 
2.43.0


From 3f220ace1abe7a9b64f0206ad71a4e7e979b11e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 11/46] fix: forget the elements of previously read files

---
 freesif/sequentialparser/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index c807c1d..87809c4 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -139,7 +139,7 @@ def reset(reset_toplevel=True):
     global rec_size, current_ihref, current_seltyp, tables, record_names, \
         rdpoints_data, nsp_data, rdresref_data, lenrec_data, has_hierarch, \
         hierarch_table, record_count, attoplevel, filetypeid, current_indsel, \
-        current_hrec, hierarch_ihsref, toplevel_hrec
+        current_hrec, hierarch_ihsref, toplevel_hrec, elem_data
 
     rec_size = 1024
     current_ihref = None
@@ -149,6 +149,7 @@ def reset(reset_toplevel=True):
     attoplevel = False
     tables = {}
     record_names = []
+    elem_data = {}
     rdpoints_data = {}
     nsp_data = {}
     rdresref_data = {}
-- 
2.43.0


From 559cbd98b3e870b296855a008e72dc3edd91369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 12/46] fix: iteration and repr of File objects

---
 freesif/data/file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 792d279..912bad2 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -154,12 +154,12 @@ class File(object):
             return '<Closed File object>'
 
         s = ''
-        for d in sorted(self._data.values()):
+        for _, d in sorted(self._data.items()):
             s += '{!r}\n'.format(d)
         return s
 
     def __iter__(self):  # NOT dict behaviour! values instead of keys
-        return self.values()
+        return iter(self.values())
 
     def _check_isopen(self):
         if not self._isopen:
-- 
2.43.0


From c08036d32a4cc6bdf13632263cdaae8cb6115829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 13/46] fix: close_all_files() with open files

---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 912bad2..7d1379c 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -44,7 +44,7 @@ def open_sif(filename):
 
 def close_all_files():
     global _open_files
-    for f in _open_files:
+    for f in list(_open_files):
         f.close()
     _open_files = set()
 
-- 
2.43.0


From 8a759905d74384e8eea9c2f1eab9e3f66a7e76b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 14/46] fix: give superelements the reference to their top
 level

---
 freesif/data/file.py      | 4 ++--
 freesif/data/strucdata.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 7d1379c..ba305d5 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -104,10 +104,10 @@ class File(object):
                 level = subgr._f_getattr('LEVEL')
                 key = gr._v_name + '/' + subgr._v_name
                 if level == 'INTERLEVEL':
-                    self._data[key] = InterLevelData(subgr, data)
+                    self._data[key] = InterLevelData(subgr, self, data)
 
                 elif level == 'FIRSTLEVEL':
-                    self._data[key] = FirstLevelData(subgr, data)
+                    self._data[key] = FirstLevelData(subgr, self, data)
 
         _open_files.add(self)
         self._isopen = True
diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index a279c34..2c3b4f4 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -321,8 +321,8 @@ class FirstLevelData(StrucData):
             [ 0. ,  0. ,  0. ,  0. ,  1.5,  0. ,  0. ,  0. ,  0. ,  0. ]])
 
 
-    def __init__(self, tbgroup, toplevel=None):
-        super(FirstLevelData, self).__init__(tbgroup, toplevel)
+    def __init__(self, tbgroup, fileinstance, toplevel=None):
+        super(FirstLevelData, self).__init__(tbgroup, fileinstance, toplevel)
         if self._filetype == 'R':
             self._index = tbgroup._f_getattr('INDEX')
 
-- 
2.43.0


From 60adec3babc68f0d99072f2caa0fe4ebe32de7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 15/46] fix: disconnected node results of models with loose
 nodes

---
 freesif/data/strucdata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 2c3b4f4..83107a2 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -550,9 +550,11 @@ class FirstLevelData(StrucData):
         ires = set(resrefs['ires'])
 
         data = []
+        resnodes = set()  # nodes which do have results
         for r in rvnodres.iterrows():
             if r['ires'] in ires and r['iinod'] in nodenumbs:
                 data.append(res[r[start]:r[stop]])  # lookup in res is slow..
+                resnodes.add(r['iinod'])
         data = np.concatenate(data)
 
         # change dtype if complex
@@ -570,7 +572,7 @@ class FirstLevelData(StrucData):
         # disconnect
         if disconnected:
             indices = self._get_nodeindices(sets, kind, disconnected)
-            indices = self._update_connectivity(indices)
+            indices = np.searchsorted(np.array(sorted(resnodes)) - 1, indices)
             axis = 0 if nres == 1 else 1
             return data.take(indices, axis=axis)
 
-- 
2.43.0


From 4e60d76eabf8fad0fe81750e75ff492db9dbd148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 16/46] fix: VtuWriter must not change the arrays it is given

---
 freesif/utils/writers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 27079c9..b5cc753 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -106,8 +106,9 @@ class VtuWriter(object):
         self._close_piece()
         self._piece_open = True
 
-        _reorder_connectivity_vtk(cells)
         connectivity, offsets, types = cells
+        connectivity = connectivity.copy()  # don't change the caller's array
+        _reorder_connectivity_vtk((connectivity, offsets, types))
 
         # keep reference to offsets and types
         self._current_offsets = offsets
@@ -146,6 +147,7 @@ class VtuWriter(object):
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
+        arr = arr.copy()  # don't change the caller's array
         _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
         self.add_data(arr, name, compnames)
-- 
2.43.0


From d6a7325275f31c821d70c46b1629500f26ec0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 17/46] fix: add_data_cellpoints() without open piece raises
 VtkError

---
 freesif/utils/writers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index b5cc753..ff1983c 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -140,13 +140,13 @@ class VtuWriter(object):
     def add_data(self, arr, name, compnames=None):
         """
         """
-        if not self._pointdata_open and not self._celldata_open:
-            raise VtkError('Call start_pointdata() or start_celldata() first')
+        self._check_data_open()
         self._write_array(arr, name, compnames)
 
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
+        self._check_data_open()
         arr = arr.copy()  # don't change the caller's array
         _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
@@ -160,6 +160,10 @@ class VtuWriter(object):
         self._close_element('VTKFile')
         self._file.close()
 
+    def _check_data_open(self):
+        if not self._pointdata_open and not self._celldata_open:
+            raise VtkError('Call start_pointdata() or start_celldata() first')
+
     def _write_array(self, arr, name, compnames=None):
 
         # accept 1d or 2d array
-- 
2.43.0


From b197044472d65bce31adf84c92920ae4304b1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 18/46] fix: write big endian arrays correctly to vtu files

---
 freesif/utils/writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index ff1983c..f854e59 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -197,7 +197,8 @@ class VtuWriter(object):
 #        self._file.write(b64encode(arr.T.ravel().tostring(order='F')))
 
         header = pack('<Q', nbytes)
-        arrstr = arr.ravel().tostring()
+        # the file is declared to be little endian
+        arrstr = arr.astype(arr.dtype.newbyteorder('<')).ravel().tobytes()
         self._file.write(b64encode(header + arrstr))
 
         # write newline
-- 
2.43.0


From 27e507f20ae6e9f44d8efa869b4ae9a2f0d77d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 19/46] fix: escape names in vtu files

---
 freesif/utils/writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index f854e59..3406cc4 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -6,6 +6,7 @@
 import numpy as np
 from struct import pack
 from base64 import b64encode
+from xml.sax.saxutils import quoteattr
 
 from ..exceptions import VtkError
 
@@ -234,7 +235,7 @@ class VtuWriter(object):
         s += b'<%s' % tag.encode()
         if kwargs:
             s += b' '
-            s += b' '.join([b'%s="%s"' % (str(k).encode(), str(v).encode())
+            s += b' '.join([b'%s=%s' % (k.encode(), quoteattr(str(v)).encode())
                 for k, v in list(kwargs.items())])
         if selfclosing:
             s += b' />\n'
-- 
2.43.0


From a56457c57d360af55360deabab151c5fed69a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 20/46] fix: make VtfData work on Python 3

---
 freesif/utils/vtfdata.py | 60 ++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index 8543028..9f53c69 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -151,16 +151,17 @@ class VtfData(object):
 
         self.containers = {'nodes': self.nodes,
                            'elems': self.elems,
-                           'scalars': self.scalar,
+                           'scalars': self.scalars,
                            'results': self.results}
 
         self.current_ids = {'nodes': self.current_nodes_id}
         # TODO: finish this with elems and scalars
 
     def _get_new_id(self, objtype):
-        obj_id = self.counters[objtype].next()
+        obj_id = next(self.counters[objtype])
         while obj_id in self.containers[objtype].keys():
-            obj_id = self.counters[objtype].next()
+            obj_id = next(self.counters[objtype])
+        return obj_id
 
     def _get_current_id(self, objtype):
         pass
@@ -173,9 +174,9 @@ class VtfData(object):
 
         # handle blank lines
         def get_next_line():
-            line = lines_iter.next()
+            line = next(lines_iter)
             while line.strip() == '':  # empty line
-                line = lines_iter.next()
+                line = next(lines_iter)
             return line
 
         line = get_next_line()
@@ -211,10 +212,10 @@ class VtfData(object):
                     while line.split()[0] not in block_types:
                         if with_id:
                             toks = line.split()
-                            node_list.append(map(float, toks[1:]))
+                            node_list.append(list(map(float, toks[1:])))
                             nodeid_list.append(int(toks[0]))
                         else:
-                            node_list.append(map(float, line.split()))
+                            node_list.append(list(map(float, line.split())))
                         line = get_next_line()
 
                     nodes_arr = np.array(node_list)
@@ -314,7 +315,7 @@ class VtfData(object):
                         elems = self.elems[elems_id]
                         elems.results_ids.append(block_id)
 
-                        for elem_type, arr in elems.elems_dict.iteritems():
+                        for elem_type, arr in elems.elems_dict.items():
                             n_res = number_of_nodes[elem_type]
                             resinds = range(n_res)
                             res = []
@@ -434,12 +435,11 @@ class VtfData(object):
         has_elem_numbers = True if elem_numbers is not None else False
 
         if not nodes_id:
-#            nodes_id = self.current_nodes_id
-            nodes_id = self._get_current_id()
+            nodes_id = self.current_nodes_id
         if not elems_id:
-            elems_id = self.elems_id_counter.next()
+            elems_id = next(self.elems_id_counter)
             while elems_id in self.elems.keys():
-                elems_id = self.elems_id_counter.next()
+                elems_id = next(self.elems_id_counter)
 
         # need to convert data format:
 
@@ -461,7 +461,7 @@ class VtfData(object):
             elems_dict[et].append(con[o0:o1])
             o0 = o1
 
-        for et in elems_dict.keys():
+        for et in list(elems_dict.keys()):
             elems_dict[elem_type_map[et]] = np.array(elems_dict[et])
             if not self.nodes[nodes_id].with_id:
                 elems_dict[elem_type_map[et]] += 1
@@ -473,7 +473,7 @@ class VtfData(object):
                 elem_ids[et].append(elno)
                 o0 = o1
 
-            for et in elem_ids.keys():
+            for et in list(elem_ids.keys()):
                 elem_ids[elem_type_map[et]] = np.array(elem_ids[et])
                 del elem_ids[et]
 
@@ -499,7 +499,7 @@ class VtfData(object):
         # currently (time)steps are not implemented...
 
         if not scalar_id:
-            scalar_id = self.scalar_id_counter.next()
+            scalar_id = next(self.scalar_id_counter)
 
         self.scalars[scalar_id] = Scalar(name, description)
         self.current_scalar_id = scalar_id
@@ -551,10 +551,10 @@ class VtfData(object):
 
 
         if not results_id:
-            results_id = self.results_id_counter.next()
+            results_id = next(self.results_id_counter)
             # need to make sure the id number is not taken:
             while results_id in self.results.keys():
-                results_id = self.results_id_counter.next()
+                results_id = next(self.results_id_counter)
 
          # assiciate results_id with elements
         if not elems_id:
@@ -578,7 +578,7 @@ class VtfData(object):
         f_out.write('*VTF-1.00\n')
 
         # nodes
-        for nodes_id, nodes_data in self.nodes.iteritems():
+        for nodes_id, nodes_data in self.nodes.items():
             f_out.write('*NODES {}\n'.format(nodes_id))
             if nodes_data.with_id:
                 f_out.write('%WITH_ID\n')
@@ -594,7 +594,7 @@ class VtfData(object):
 
 
         # elements
-        for elems_id, elems_data in self.elems.iteritems():
+        for elems_id, elems_data in self.elems.items():
             f_out.write('*ELEMENTS {}\n'.format(elems_id))
             f_out.write('%NAME "{}"\n'.format(elems_data.name))
             f_out.write('%DESCRIPTION "{}"\n'.format(elems_data.description))
@@ -610,13 +610,13 @@ class VtfData(object):
             # get order for which element types shall be written
             if elems_data.results_ids:
 
-                result_keys = self.results[elems_data.results_ids[0]] \
-                    .res_dict.keys()
+                result_keys = list(
+                    self.results[elems_data.results_ids[0]].res_dict)
 
                 # verify that all res_dicts associated with
                 # this element block has identical key lists (elem types):
                 for results_id in elems_data.results_ids:
-                    if self.results[results_id].res_dict.keys() != result_keys:
+                    if list(self.results[results_id].res_dict) != result_keys:
                         raise VtfError(
                             'Element block "{}": All results associated with a'
                             ' single element block should apply to the same '
@@ -631,8 +631,8 @@ class VtfData(object):
                     ordered_elems_dict[key] = elems_data.elems_dict[key]
 
                 # then add element types without results
-                existing_keys = ordered_elems_dict.keys()
-                for key, value in elems_data.elems_dict.iteritems():
+                existing_keys = list(ordered_elems_dict)
+                for key, value in elems_data.elems_dict.items():
                     if key not in existing_keys:
                         ordered_elems_dict[key] = value
 
@@ -642,8 +642,8 @@ class VtfData(object):
             # write element defs in correct order
             if elems_data.with_id:
                 for elem_ids_arr, (elem_type, elems_arr) in zip(
-                    elems_data.elem_ids.itervalues(),
-                    ordered_elems_dict.iteritems()):
+                    elems_data.elem_ids.values(),
+                    ordered_elems_dict.items()):
                     # element type:
                     f_out.write('{}\n'.format(elem_type))
 
@@ -653,7 +653,7 @@ class VtfData(object):
                     for elem_id, node_refs in zip(elem_ids_arr, elems_arr):
                         f_out.write(string.format(elem_id, *node_refs))
             else:
-                for elem_type, elems_arr in ordered_elems_dict.iteritems():
+                for elem_type, elems_arr in ordered_elems_dict.items():
                     # element type:
                     f_out.write('{}\n'.format(elem_type))
 
@@ -674,7 +674,7 @@ class VtfData(object):
         f_out.write('\n')
 
         # results
-        for results_id, results_data in self.results.iteritems():
+        for results_id, results_data in self.results.items():
 
             f_out.write('*RESULTS {}\n'.format(results_id))
             f_out.write('%DIMENSION {}\n'.format(results_data.dimension))
@@ -684,13 +684,13 @@ class VtfData(object):
             # TODO: handle different res_types, currently assumes
             # PER_ELEMENT_NODE?
 
-            for elem_type, res_arr in results_data.res_dict.iteritems():
+            for elem_type, res_arr in results_data.res_dict.items():
                 for node_values in res_arr:
                     for node_value in node_values:
                         f_out.write('{}\n'.format(node_value))
 
         # scalars
-        for scalar_id, scalar_data in self.scalars.iteritems():
+        for scalar_id, scalar_data in self.scalars.items():
             f_out.write('*GLVIEWSCALAR {}\n'.format(scalar_id))
             f_out.write('%NAME "{}"\n'.format(scalar_data.name))
             f_out.write('%DESCRIPTION "{}"\n'.format(
-- 
2.43.0


From 4d784151f97fc48baaad0eceaa0c11ca8daa1004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 21/46] fix: don't share the list of results between VTF
 scalars

---
 freesif/utils/vtfdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index 9f53c69..1fc0997 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -81,10 +81,10 @@ class Scalar(Data):
     """
     """
 
-    def __init__(self, name, description, results_ids=[]):
+    def __init__(self, name, description, results_ids=None):
         self.name = name
         self.description = description
-        self.results_ids = results_ids
+        self.results_ids = [] if results_ids is None else results_ids
         # self.step ??
 
 
-- 
2.43.0


From e5d30ee77681fcf1bd73504c5acbfcee92f881ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 22/46] fix: write the results of a VTF scalar as they are read

---
 freesif/utils/vtfdata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index 1fc0997..c77b668 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -348,6 +348,9 @@ class VtfData(object):
 
 
                 elif block_name == '*GLVIEWSCALAR':
+                    name = ''
+                    description = ''
+                    res_ids = []
                     line = get_next_line()
                     # read directives
                     while line.split()[0] in scalar_directives:
@@ -695,11 +698,13 @@ class VtfData(object):
             f_out.write('%NAME "{}"\n'.format(scalar_data.name))
             f_out.write('%DESCRIPTION "{}"\n'.format(
                         scalar_data.description))
+            if not scalar_data.results_ids:
+                continue
             f_out.write('%STEP 1\n')  # implement several steps per scalar?
 
             resid_str = ''
             for results_id in scalar_data.results_ids:
-                resid_str += '{} '.format(results_id)
+                resid_str += '{},'.format(results_id)
             f_out.write(resid_str[:-1] + '\n')
 
         f_out.close()
-- 
2.43.0


From cbfb9e4bdf43e4ea90130e8dc7cc96b0d6c8c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 23/46] fix: keep VTF element numbers with their elements

---
 freesif/utils/vtfdata.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index c77b668..a34372a 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -644,9 +644,8 @@ class VtfData(object):
 
             # write element defs in correct order
             if elems_data.with_id:
-                for elem_ids_arr, (elem_type, elems_arr) in zip(
-                    elems_data.elem_ids.values(),
-                    ordered_elems_dict.items()):
+                for elem_type, elems_arr in ordered_elems_dict.items():
+                    elem_ids_arr = elems_data.elem_ids[elem_type]
                     # element type:
                     f_out.write('{}\n'.format(elem_type))
 
-- 
2.43.0


From 7aac21394af14d0a677915bac4ce9598698d9225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 24/46] fix: keep blanks between large VTF coordinates

---
 freesif/utils/vtfdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index a34372a..7fa5062 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -585,13 +585,13 @@ class VtfData(object):
             f_out.write('*NODES {}\n'.format(nodes_id))
             if nodes_data.with_id:
                 f_out.write('%WITH_ID\n')
-                string ='{:<8.0f}' +  3*'{:>12.5f}' + '\n'
+                string ='{:<8.0f}' +  3*' {:>12.5f}' + '\n'
                 for nodeid, coords in zip(nodes_data.nodeid_arr,
                                           nodes_data.nodes_arr):
                     f_out.write(string.format(nodeid, *coords))
             else:
                 f_out.write('%NO_ID\n')
-                string = 3*'{:>12.5f}' + '\n'
+                string = 3*' {:>12.5f}' + '\n'
                 for coords in nodes_data.nodes_arr:
                     f_out.write(string.format(*coords))
 
-- 
2.43.0


From 92aadfe37a0ea1eadbf3ab1a4cd0ac059f5b84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 25/46] fix: read VTF names with several blanks unchanged

---
 freesif/utils/vtfdata.py | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index 7fa5062..f019f6e 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -240,15 +240,9 @@ class VtfData(object):
                     while line.split()[0] in elem_directives:
                         toks = line.split()
                         if toks[0] == '%NAME':
-                            if len(toks) == 2:
-                                name = toks[1][1:-1]
-                            else:
-                                name = ' '.join(toks[1:])[1:-1]
+                            name = line.split(None, 1)[1].strip()[1:-1]
                         elif toks[0] == '%DESCRIPTION':
-                            if len(toks) == 2:
-                                description = toks[1][1:-1]
-                            else:
-                                description = ' '.join(toks[1:])[1:-1]
+                            description = line.split(None, 1)[1].strip()[1:-1]
                         elif toks[0] == '%NODES':
                             nodes_id = int(toks[1][1:])
                         elif toks[0] == '%WITH_ID':
@@ -356,15 +350,9 @@ class VtfData(object):
                     while line.split()[0] in scalar_directives:
                         toks = line.split()
                         if toks[0] == '%NAME':
-                            if len(toks) == 2:
-                                name = toks[1][1:-1]
-                            else:
-                                name = ' '.join(toks[1:])[1:-1]
+                            name = line.split(None, 1)[1].strip()[1:-1]
                         elif toks[0] == '%DESCRIPTION':
-                            if len(toks) == 2:
-                                description = toks[1][1:-1]
-                            else:
-                                description = ' '.join(toks[1:])[1:-1]
+                            description = line.split(None, 1)[1].strip()[1:-1]
                         elif toks[0] == '%STEP':
                             # read result block ids (comma separated)
                             line = get_next_line()
@@ -387,15 +375,9 @@ class VtfData(object):
                     while line.split()[0] in geom_directives:
                         toks = line.split()
                         if toks[0] == '%NAME':
-                            if len(toks) == 2:
-                                self.name = toks[1][1:-1]
-                            else:
-                                self.name = ' '.join(toks[1:])[1:-1]
+                            self.name = line.split(None, 1)[1].strip()[1:-1]
                         elif toks[0] == '%DESCRIPTION':
-                            if len(toks) == 2:
-                                self.description = toks[1][1:-1]
-                            else:
-                                self.description = ' '.join(toks[1:])[1:-1]
+                            self.description = line.split(None, 1)[1].strip()[1:-1]
                         line = get_next_line()
 
 
-- 
2.43.0


From 6a0a7cc3027c7f66c6c18c9a7d5db740bca50d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 26/46] fix: don't reuse the id of an existing VTF scalar

---
 freesif/utils/vtfdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index f019f6e..e1183d8 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -484,7 +484,7 @@ class VtfData(object):
         # currently (time)steps are not implemented...
 
         if not scalar_id:
-            scalar_id = next(self.scalar_id_counter)
+            scalar_id = self._get_new_id('scalars')
 
         self.scalars[scalar_id] = Scalar(name, description)
         self.current_scalar_id = scalar_id
-- 
2.43.0


From db35b8a13557bd558dc9e7fb0b711510cec1ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 27/46] fix: WDRESREF without direction, frequency or time

A record without one of them was given those of the previous record.
---
 freesif/sequentialparser/parsers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 87809c4..2282044 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -2042,6 +2042,8 @@ def wdresref_reader(rec_name, rec, in_file, out_file):
     times = vldata(time_arr)
     recs = recdata(table, dirs, freqs, times)
     while rec_name == 'WDRESREF':
+        for ref in (dirs, freqs, times):
+            ref.add([])  # not every type of reference needs to be present
         for _ in range(int(rec[3])):
             irefty = int(in_file.read_floats(1)[0])
             dat = []
-- 
2.43.0


From a229051897e77eba9d91b14e52635b62beb1740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 28/46] fix: skip the text lines of TSLAYER records on
 unformatted files

---
 freesif/sequentialparser/sequentialfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index c47b73c..f034ea2 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -119,7 +119,7 @@ class SequentialFile(object):
             return self.read_headerrec()
 
         # workaround to handle TDxxxxxx records (on unformatted files):
-        if rec_name[:2] == 'TD':
+        if rec_name[:2] == 'TD' or rec_name == 'TSLAYER':
             for i in range(int(rec[2]) // 100):
                 self.read_stringrec()
             for i in range(int(rec[3]) // 100):
-- 
2.43.0


From 8548b087d7c39e98fb807a9904ea3fd5ed440b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 29/46] fix: set names with both kinds of quotes

---
 freesif/data/helpers.py   | 4 ++--
 freesif/data/strucdata.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/freesif/data/helpers.py b/freesif/data/helpers.py
index 0fba7f3..aac14e7 100644
--- a/freesif/data/helpers.py
+++ b/freesif/data/helpers.py
@@ -9,10 +9,10 @@ import re
 
 from ..exceptions import ConditionError
 
-def getrow(table, condition):
+def getrow(table, condition, condvars=None):
     """Get first row in a tables.Table fulfilling condition
     """
-    for r in table.where(condition):
+    for r in table.where(condition, condvars):
         return r.fetch_all_fields()
     raise ConditionError('Table "{}" has no row fulfilling '
                          'condition'.format(table.name))
diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 83107a2..61a2d92 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -41,8 +41,9 @@ class StrucData(SifData):
         setnames = (setnames,) if isinstance(setnames, str) else setnames
         setmembs = []
         for setname in setnames:
-            cond = 'name==b{}'.format(repr(setname))
-            isref = getrow(tdsetnam, cond)['idno']
+            # as a variable, any characters are allowed in the name
+            isref = getrow(tdsetnam, 'name==setname',
+                           {'setname': setname.encode()})['idno']
             cond = '(isref=={})&(istype=={})'.format(isref, istype)
             for r in gsetmemb.where(cond):
                 setmembs.append(irmemb[r['irmemb_start']:r['irmemb_stop']])
-- 
2.43.0


From e2b590023e01c1453043d0ee2ebcf21f03388eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:45 +0000
Subject: [PATCH 30/46] fix: sectional forces when several bodies have sections

---
 freesif/data/hydrodata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index f5df243..3e43187 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -254,8 +254,9 @@ class HydroData(SifData):
         self._assert_domaintype('frequency')
         data = self._get_results('w1sforce', bodyid, 'data')
 
-        # reshape data to (section, dof, direction, frequency)
-        data.shape = (self._nsections, self._ndirs, self._nfreqs, 6)
+        # reshape data to (section, dof, direction, frequency), the file may
+        # also have sections of other bodies
+        data.shape = (-1, self._ndirs, self._nfreqs, 6)
         return np.rollaxis(data, 3, 1)
 
     def get_fluidkinematics_raos(self, kind='elevation'):
-- 
2.43.0


From 85eb3156632491fd9a8bfc5033af3c2ee9dc9019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 31/46] fix: signed absolute maximum of integer arrays

---
 freesif/calc/general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/calc/general.py b/freesif/calc/general.py
index 2bc5a78..27661ac 100644
--- a/freesif/calc/general.py
+++ b/freesif/calc/general.py
@@ -13,7 +13,8 @@ def absmax(a, axis=None):
     """
     amax = a.max(axis)
     amin = a.min(axis)
-    return np.where(-amin > amax, amin, amax)
+    # -amin wraps for unsigned integers and the smallest integer
+    return np.where((amin < 0) & (amin < -amax), amin, amax)
 
 
 def find_elemres_indices(pairs, elems, elemnumb, nodenumb):
-- 
2.43.0


From 5c3e60938356378e9cb047e6cb35ba8ee6c8e243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 32/46] fix: restore the number of optional fields of GUSYI

Reverts 1950667: lines and records are filled up to four fields, so
reading the third one unconditionally was no defect.
---
 freesif/sequentialparser/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 2282044..e6f575a 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1194,7 +1194,7 @@ class GUSYI_rec(tb.IsDescription):
     nlobz = tb.Int32Col(pos=13)
 
 descriptors['GUSYI'] = GUSYI_rec
-readers['GUSYI'] = reader_optionalfields('GUSYI', GUSYI_rec, 8, 3)
+readers['GUSYI'] = reader_optionalfields('GUSYI', GUSYI_rec, 8, 2)
 
 
 # ---GSETMEMB---------------------------------------------------------------- #
-- 
2.43.0


From 2611ef4bb321bb46a0697c6d08f7574e1ee2223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:21 +0000
Subject: [PATCH 33/46] fix: result case number as numpy integer

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 61a2d92..3b50e18 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -162,7 +162,7 @@ class StrucData(SifData):
 
         if isinstance(rescases, (list, tuple, np.ndarray)):
             rescases = set(rescases)
-        elif isinstance(rescases, int):
+        elif isinstance(rescases, (int, np.integer)):
             rescases = set([rescases])
         elif rescases is None:
             indices = rdresref.get_where_list('irno=={}'.format(run))
-- 
2.43.0


From ff32d8fbabe0a4deec353769cb7ecb3283c6355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:21 +0000
Subject: [PATCH 34/46] fix: hierarchy level as numpy integer

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 3b50e18..a9ce090 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -469,7 +469,7 @@ class FirstLevelData(StrucData):
                                                                   index, 'top')
                     else:
                         raise ValueError('legal string argument: "top"')
-                elif isinstance(trans, int):
+                elif isinstance(trans, (int, np.integer)):
                     trans = self._toplevel.get_transformation(self._seltyp,
                                                               index, trans)
             elif self._has_record('rsuptran') and trans=='top':
-- 
2.43.0


From 9ceb7a9c0d29c03f0dd5093737c19563b477020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 35/46] fix: open_sif through a symbolic link

---
 freesif/data/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index ba305d5..cd8b443 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -38,7 +38,8 @@ def open_sif(filename):
     # at the same time.
 
     tbfile = sif2hdf5(filename, in_memory=True)
-    prefix, letter, idno, ext = parse_sifname(filename)
+    # the group is named after the file itself, also when filename is a link
+    prefix, letter, idno, ext = parse_sifname(path.realpath(filename))
     groupname = prefix + letter.upper() + idno
     return File(tbfile)[groupname]
 
-- 
2.43.0


From 9a302f19aae481fee09cb3404d0990f2ecd3038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 36/46] fix: hydrodynamic axes are returned as copies

---
 freesif/data/hydrodata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index 3e43187..bbaf8e1 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -122,13 +122,13 @@ class HydroData(SifData):
         """Get angular frequencies.
         """
         self._assert_domaintype('frequency')
-        return self._angfreqs
+        return self._angfreqs.copy()
 
     def get_periods(self):
         """Get periods.
         """
         self._assert_domaintype('frequency')
-        return self._periods
+        return self._periods.copy()
 
     def get_directions(self, unit='degrees'):
         """Get wave directions in 'degrees' (default) or 'radians'
@@ -138,7 +138,7 @@ class HydroData(SifData):
         if unit == 'degrees':
             return self._directions * 180. / np.pi
         elif unit == 'radians':
-            return self._directions
+            return self._directions.copy()
         else:
             raise ValueError("unit must be 'degrees' or 'radians'")
 
@@ -146,7 +146,7 @@ class HydroData(SifData):
         """Get time instants.
         """
         self._assert_domaintype('time')
-        return self._timesteps
+        return self._timesteps.copy()
 
     def get_sections(self):
         """Get section definitions
-- 
2.43.0


From a19bbc5f42342c499f0629a12adce3c7a666d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 37/46] fix: refuse result cases that do not exist

---
 freesif/data/strucdata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index a9ce090..2fec9b9 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -172,6 +172,11 @@ class StrucData(SifData):
         for row in rdresref.iterrows():
             if row['irno'] == run and row['ieres'] in rescases:
                 resrefs.append(row.fetch_all_fields())
+
+        missing = set(rescases).difference(r['ieres'] for r in resrefs)
+        if missing:
+            raise ResultError('No result case {} in run {} on {}'.format(
+                ', '.join(str(c) for c in sorted(missing)), run, self.name))
         return np.array(resrefs)
 
     def _check_complex_and_get_flag(self, complexflags):
-- 
2.43.0


From 6e28b01c1f46c06701d3c4120f0b671117d99109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 38/46] fix: body number 0 does not stand for all bodies

---
 freesif/data/hydrodata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index bbaf8e1..ed40a90 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -101,7 +101,7 @@ class HydroData(SifData):
         """
 
         res = self._get_record(rec_name)
-        if bodyid:
+        if bodyid is not None:
             ibcond = self._get_ibcond(bodyid)
             # get all records for this ibcond
             res_recs = res.read_where('ibcond=={}'.format(ibcond))
-- 
2.43.0


From 05f7037ef38dd7f43fb836b39c88942a0208bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 39/46] fix: refuse interface files that end before the IEND
 record

---
 freesif/sequentialparser/parsers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index e6f575a..ce11108 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -451,9 +451,11 @@ def general_parser(rec_name, rec, in_file, out_file):
 def parse_file(in_file, out_file, only=None):
 
     rec_name, rec = in_file.read_headerrec()
+    last_name = None
 
     if only:
         while rec_name:
+            last_name = rec_name
             if rec_name in only:
                 rec_name, rec = general_parser(rec_name, rec, in_file,
                                                   out_file)
@@ -463,8 +465,12 @@ def parse_file(in_file, out_file, only=None):
                     rec_name, rec = in_file.skip_restofrecord(rec_name, rec)
     else:
         while rec_name:
+            last_name = rec_name
             rec_name, rec = general_parser(rec_name, rec, in_file, out_file)
 
+    if last_name != 'IEND':
+        raise EOFError('{} ends before the IEND record'.format(in_file.f.name))
+
     # set attributes on superelement group
     # ------------------------------------
 
-- 
2.43.0


From 0fec4beaad9604338b08dd44f252f579b4787dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 40/46] fix: element result look-up gave another node in
 six-node triangles

The results of SCTS elements go round the element while their nodes are
given corners first.
---
 freesif/calc/general.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/freesif/calc/general.py b/freesif/calc/general.py
index 27661ac..2438569 100644
--- a/freesif/calc/general.py
+++ b/freesif/calc/general.py
@@ -31,5 +31,10 @@ def find_elemres_indices(pairs, elems, elemnumb, nodenumb):
         elind, = np.where(elemnumb==elno)[0]
         tmp_arr = offset[elind] - nodeind_arr
         tmp_ind = tmp_arr[tmp_arr>0].argmin()
-        indices.append(nodeind_arr[tmp_ind])
+        ind = nodeind_arr[tmp_ind]
+        if eltyp[elind] == 26:
+            # corner nodes come first, but result points go round the element
+            start = offset[elind] - 6
+            ind = start + [0,2,4,1,3,5][ind - start]
+        indices.append(ind)
     return np.array(indices)
-- 
2.43.0


From ecc8bb5271562e664872f0226b83d490798a4861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 41/46] fix: lower level files of another format than the top
 level file

Each file of a superelement hierarchy may be formatted or unformatted, but
all were read in the format of the top level file.
---
 freesif/sequentialparser/sif2hdf5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index ee88152..d8c7b74 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -311,6 +311,9 @@ def parse_files(in_file, out_file, only, is_formatted, fdir, fileprefix,
         for i, fname in enumerate(fnames):
             fname_fullpath = path.join(fdir, fname)
             if path.isfile(fname_fullpath):
+                # the files of a hierarchy may be of either kind
+                with open(fname_fullpath, 'rb') as f:
+                    is_formatted = f.read(1) != b'K'
                 if is_formatted:
                     in_file = FormattedFile(fname_fullpath)
                 else:
-- 
2.43.0


From 99853ae65496d671921f597dd92b612d9f1d36a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 42/46] fix: matrices of other than two dimensions failed with
 an IndexError

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 2fec9b9..c0fe8c8 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -466,7 +466,7 @@ class FirstLevelData(StrucData):
                 if trans.shape != (4,4):
                     raise ValueError(
                         'Transformation matrix must have shape (4,4), got '
-                        '({},{})'.format(*trans.shape))
+                        '{}'.format(trans.shape))
             elif self._toplevel:
                 if isinstance(trans, str):
                     if trans == 'top':
-- 
2.43.0


From 298062e6f013eaa1cb7eca6a96497962807cfb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 43/46] fix: a piece without elements could not be written to a
 .vtu file

---
 freesif/utils/writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 3406cc4..0d2d9e4 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -27,7 +27,8 @@ sesam2vtk_elementtypeid = {15 : 3,
                            28 : 23}
 
 # get vtk ids from sesam ids
-typeidmapper = np.vectorize(lambda x: sesam2vtk_elementtypeid[x])
+typeidmapper = np.vectorize(lambda x: sesam2vtk_elementtypeid[x],
+                            otypes=[int])  # there may be no elements
 
 # get vtk datatype name from numpy datatype name
 numpy2vtk_datatype = {'int8'    : 'Int8',
-- 
2.43.0


From 41ba9e30556d7528a5133f9096ef22681fd53446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 44/46] fix: a piece that was refused left the .vtu document
 open

---
 freesif/utils/writers.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 0d2d9e4..ec1f88b 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -104,11 +104,16 @@ class VtuWriter(object):
     def new_piece(self, points, cells):
         """
         """
+        # refuse what cannot be written before anything is
+        connectivity, offsets, types = cells
+        for arr in (points, connectivity, offsets):
+            self._check_array(arr)
+        vtktypes = typeidmapper(types)
+
         self._close_data()
         self._close_piece()
         self._piece_open = True
 
-        connectivity, offsets, types = cells
         connectivity = connectivity.copy()  # don't change the caller's array
         _reorder_connectivity_vtk((connectivity, offsets, types))
 
@@ -116,8 +121,6 @@ class VtuWriter(object):
         self._current_offsets = offsets
         self._current_types = types
 
-        types = typeidmapper(types)
-
         self._open_element('Piece', NumberOfPoints=len(points),
                            NumberOfCells=len(offsets))
 
@@ -130,7 +133,7 @@ class VtuWriter(object):
         self._open_element('Cells')
         self._write_array(connectivity, 'connectivity')
         self._write_array(offsets, 'offsets')
-        self._write_array(types, 'types')
+        self._write_array(vtktypes, 'types')
         self._close_element('Cells')
 
     def start_pointdata(self):
@@ -166,6 +169,13 @@ class VtuWriter(object):
         if not self._pointdata_open and not self._celldata_open:
             raise VtkError('Call start_pointdata() or start_celldata() first')
 
+    def _check_array(self, arr):
+        """raise an error if *arr* cannot be written
+        """
+        if arr.ndim not in (1, 2):
+            raise VtkError('array must be 1d or 2d')
+        numpy2vtk_datatype[arr.dtype.name]
+
     def _write_array(self, arr, name, compnames=None):
 
         # accept 1d or 2d array
-- 
2.43.0


From 2699ee41e1fb9df26f6d666970b62af11821817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:06 +0000
Subject: [PATCH 45/46] fix: selections that match no element failed with a
 ValueError

---
 freesif/data/sifdata.py   | 5 +++--
 freesif/data/strucdata.py | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/freesif/data/sifdata.py b/freesif/data/sifdata.py
index 621a53c..af894db 100644
--- a/freesif/data/sifdata.py
+++ b/freesif/data/sifdata.py
@@ -98,14 +98,15 @@ class SifData(object):
         start_indices = rec.col(colname + '_start')[indices]
         stop_indices = rec.col(colname + '_stop')[indices]
 
-        datalist = []
+        datalist = [arr[:0]]  # there may be no indices
         offsetlist = []
         offset = 0
         for start, stop in zip(start_indices, stop_indices):
             datalist.append(arr[start:stop])
             offset += stop - start
             offsetlist.append(offset)
-        return np.concatenate(datalist), np.array(offsetlist)
+        return (np.concatenate(datalist),
+                np.array(offsetlist, start_indices.dtype))
 
     def _has_record(self, rec_name):
         """Check if record type is present on this dataset"""
diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index c0fe8c8..79619d7 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -39,7 +39,7 @@ class StrucData(SifData):
         gsetmemb, irmemb = self._get_record('gsetmemb')
 
         setnames = (setnames,) if isinstance(setnames, str) else setnames
-        setmembs = []
+        setmembs = [irmemb[:0]]  # there may be no members
         for setname in setnames:
             # as a variable, any characters are allowed in the name
             isref = getrow(tdsetnam, 'name==setname',
@@ -119,7 +119,7 @@ class StrucData(SifData):
 
         nodeindices = np.unique(con)
         indexmap = dict(zip(nodeindices, np.arange(len(nodeindices))))
-        indexmapper = np.vectorize(lambda x: indexmap[x])
+        indexmapper = np.vectorize(lambda x: indexmap[x], otypes=[int])
         return indexmapper(con)
 
     def _get_nodeindices_ofelems(self, elemindices, disconnected=False):
@@ -555,7 +555,7 @@ class FirstLevelData(StrucData):
             self.get_nodenumbers(sets, kind, numbertype='internal'))
         ires = set(resrefs['ires'])
 
-        data = []
+        data = [] if nodenumbs else [res[:0]]
         resnodes = set()  # nodes which do have results
         for r in rvnodres.iterrows():
             if r['ires'] in ires and r['iinod'] in nodenumbs:
-- 
2.43.0


From 08f19d71bbb9bcf687f2cb9b64db8ee9e8b162af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 46/46] fix: result cases without the requested results gave
 other cases' data or a ValueError

---
 freesif/data/strucdata.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 79619d7..db52191 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -186,6 +186,14 @@ class StrucData(SifData):
                 'Result cases must all be either real or complex')
         return complexflag
 
+    def _check_counts(self, counts, restype):
+        """Check that there are equally many results for each result case
+        """
+        if len(set(counts.values())) > 1 or 0 in counts.values():
+            raise ResultError(
+                'Some of the {} results of the result cases are not on '
+                '{}'.format(restype, self.name))
+
     def get_setnames(self):
         """Get names of all sets in superelement.Returns None if no sets exist
         """
@@ -555,12 +563,16 @@ class FirstLevelData(StrucData):
             self.get_nodenumbers(sets, kind, numbertype='internal'))
         ires = set(resrefs['ires'])
 
-        data = [] if nodenumbs else [res[:0]]
+        data = [res[:0]]  # there may be no nodes
+        counts = dict.fromkeys(ires, 0)
         resnodes = set()  # nodes which do have results
         for r in rvnodres.iterrows():
             if r['ires'] in ires and r['iinod'] in nodenumbs:
                 data.append(res[r[start]:r[stop]])  # lookup in res is slow..
+                counts[r['ires']] += 1
                 resnodes.add(r['iinod'])
+        if nodenumbs:
+            self._check_counts(counts, restype)
         data = np.concatenate(data)
 
         # change dtype if complex
@@ -788,6 +800,7 @@ class FirstLevelData(StrucData):
         ires = set(resrefs['ires'])
 
         data = []
+        counts = dict.fromkeys(ires, 0)
         for r in rvres.iterrows():
             if r['ires'] in ires and r['iielno'] in elemnumbs:
 
@@ -799,7 +812,10 @@ class FirstLevelData(StrucData):
 
                 data.append(
                     self._process_element_results(eltyp, restype, pos, d))
+                counts[r['ires']] += 1
 
+        if elemnumbs:
+            self._check_counts(counts, restype)
         data = np.concatenate(data)  # shape is (nres*npos, comp)
                                      # or (nres*npos, surface, comp)
 
-- 
2.43.0

