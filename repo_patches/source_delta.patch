From 7d0d58a2322f45ee532842a03d4a1fcbcc9e50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 01/26] fix: store all components of complex nodal results

---
 freesif/sequentialparser/parsers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index a1b33bd..373bc92 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1888,7 +1888,7 @@ atoms['RVNODDIS'] = [('dis', tb.Float32Atom(), ())]
 atoms['RVNODVEL'] = [('vel', tb.Float32Atom(), ())]
 
 # each row in a 'rvnodres' vlarray will have nres 32-bit floats, where
-# nres = (nfield - 5) / (icompl + 1). If results are complex the dtype should
+# nres = nfield - 5. If results are complex the dtype should
 # be changed from float32 to complex64 before use
 
 
@@ -1903,9 +1903,7 @@ def rvnodres_reader(rec_name, rec, in_file, out_file):
 
         rec += in_file.read_floats(1)
         nfield = int(rec[0])
-        ires = int(rec[1])
-        icompl = rdresref_data[ires]
-        nres = (nfield - 5) // (icompl + 1)
+        nres = nfield - 5  # includes real and imaginary parts if complex
 
         res.add(in_file.read_floats(nres))
         recs.add(rec)
-- 
2.43.0


From 8974f032b861f3b25739c3fce3bbe6959da02e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 02/26] fix: make File objects iterable

---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index d136794..b3b8b51 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -159,7 +159,7 @@ class File(object):
         return s
 
     def __iter__(self):  # NOT dict behaviour! values instead of keys
-        return self.values()
+        return iter(self.values())
 
     def _check_isopen(self):
         if not self._isopen:
-- 
2.43.0


From 2dd954c88656bcd8bce9abd269ab0c88bf81077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 03/26] fix: repr of File with more than one data object

---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index b3b8b51..3430118 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -154,7 +154,7 @@ class File(object):
             return '<Closed File object>'
 
         s = ''
-        for d in sorted(self._data.values()):
+        for _, d in sorted(self._data.items()):
             s += '{!r}\n'.format(d)
         return s
 
-- 
2.43.0


From b4a94991aeaa35fa356efe2a6b707c44791171d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 04/26] fix: close_all_files modified the set it iterated over

---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 3430118..b9dcfa4 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -44,7 +44,7 @@ def open_sif(filename):
 
 def close_all_files():
     global _open_files
-    for f in _open_files:
+    for f in list(_open_files):
         f.close()
     _open_files = set()
 
-- 
2.43.0


From 4519511f08359d4d94ab7fda30ac720816cf26fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 05/26] fix: give lower level superelements their top level
 reference

---
 freesif/data/file.py      | 4 ++--
 freesif/data/strucdata.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index b9dcfa4..5493760 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -104,10 +104,10 @@ class File(object):
                 level = subgr._f_getattr('LEVEL')
                 key = gr._v_name + '/' + subgr._v_name
                 if level == 'INTERLEVEL':
-                    self._data[key] = InterLevelData(subgr, data)
+                    self._data[key] = InterLevelData(subgr, self, data)
 
                 elif level == 'FIRSTLEVEL':
-                    self._data[key] = FirstLevelData(subgr, data)
+                    self._data[key] = FirstLevelData(subgr, self, data)
 
         _open_files.add(self)
         self._isopen = True
diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index a279c34..2c3b4f4 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -321,8 +321,8 @@ class FirstLevelData(StrucData):
             [ 0. ,  0. ,  0. ,  0. ,  1.5,  0. ,  0. ,  0. ,  0. ,  0. ]])
 
 
-    def __init__(self, tbgroup, toplevel=None):
-        super(FirstLevelData, self).__init__(tbgroup, toplevel)
+    def __init__(self, tbgroup, fileinstance, toplevel=None):
+        super(FirstLevelData, self).__init__(tbgroup, fileinstance, toplevel)
         if self._filetype == 'R':
             self._index = tbgroup._f_getattr('INDEX')
 
-- 
2.43.0


From 35ff6dc9bb94cb075ee9ed927b4417791abcb1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 06/26] fix: forget element types of previously read files on
 reset

---
 freesif/sequentialparser/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 373bc92..b9b4e92 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -139,7 +139,7 @@ def reset(reset_toplevel=True):
     global rec_size, current_ihref, current_seltyp, tables, record_names, \
         rdpoints_data, nsp_data, rdresref_data, lenrec_data, has_hierarch, \
         hierarch_table, record_count, attoplevel, filetypeid, current_indsel, \
-        current_hrec, hierarch_ihsref, toplevel_hrec
+        current_hrec, hierarch_ihsref, toplevel_hrec, elem_data
 
     rec_size = 1024
     current_ihref = None
@@ -149,6 +149,7 @@ def reset(reset_toplevel=True):
     attoplevel = False
     tables = {}
     record_names = []
+    elem_data = {}
     rdpoints_data = {}
     nsp_data = {}
     rdresref_data = {}
-- 
2.43.0


From b33cd16ab182906a554d4a3afdaf4c0ce3567a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 07/26] fix: recognise all supported record names as header
 records

---
 freesif/sequentialparser/sequentialfiles.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 85d2aa5..eb3f805 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -36,12 +36,13 @@ allowed_record_names_str = set([
 'RSUMMASS', 'RSUMREAC', 'RSUPTRAN', 'RVABSCIS', 'RVELNFOR', 'RVFORCES',
 'RVNODACC', 'RVNODDIS', 'RVNODVEL', 'RVNODREA', 'RVORDINA', 'RVSTRAIN',
 'RVSTRESS', 'TNODE', 'TELEMENT', 'TDRESREF', 'TDSERIES', 'TDSUPNAM',
-'W1EXFORC', 'W1MATRIX', 'WIMOTION','WISFORCE', 'W2EXFDIF', 'W2EXFSUM',
-'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFI', 'WBODCON', 'WBODY', 'WDRESREF',
+'W1EXFORC', 'W1MATRIX', 'W1MOTION', 'W1SFORCE', 'W2EXFDIF', 'W2EXFSUM',
+'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFT', 'WBODCON', 'WBODY', 'WDRESREF',
 'WFKPOINT', 'WFLUIDKN', 'WGLOBDEF', 'WGRESPON', 'WSCATTER', 'WSECTION',
 'WSURFACE', 'TDBODNAM', 'TDRSNAM', 'TDSCATTER', 'TDSCONC', 'SCONCEPT',
 'SCONMESH', 'SCONPLIS', 'SPROSELE', 'SPROMATR', 'SPROSEGM', 'SPROHYDR',
-'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE'])
+'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE',
+'TDLOAD', 'WINPUT'])
 
 allowed_record_names_b = set([
 b'DATE', b'IDENT', b'IEND', b'TDMATER', b'TDSECT', b'TDSETNAM', b'TDSUPNAM',
@@ -68,12 +69,13 @@ b'RDRESREF', b'RDSERIES', b'RDSTRAIN', b'RDSTRESS', b'RDTRANS', b'RSUMLOAD',
 b'RSUMMASS', b'RSUMREAC', b'RSUPTRAN', b'RVABSCIS', b'RVELNFOR', b'RVFORCES',
 b'RVNODACC', b'RVNODDIS', b'RVNODVEL', b'RVNODREA', b'RVORDINA', b'RVSTRAIN',
 b'RVSTRESS', b'TNODE', b'TELEMENT', b'TDRESREF', b'TDSERIES', b'TDSUPNAM',
-b'W1EXFORC', b'W1MATRIX', b'WIMOTION','WISFORCE', b'W2EXFDIF', b'W2EXFSUM',
-b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFI', b'WBODCON', b'WBODY', b'WDRESREF',
+b'W1EXFORC', b'W1MATRIX', b'W1MOTION', b'W1SFORCE', b'W2EXFDIF', b'W2EXFSUM',
+b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFT', b'WBODCON', b'WBODY', b'WDRESREF',
 b'WFKPOINT', b'WFLUIDKN', b'WGLOBDEF', b'WGRESPON', b'WSCATTER', b'WSECTION',
 b'WSURFACE', b'TDBODNAM', b'TDRSNAM', b'TDSCATTER', b'TDSCONC', b'SCONCEPT',
 b'SCONMESH', b'SCONPLIS', b'SPROSELE', b'SPROMATR', b'SPROSEGM', b'SPROHYDR',
-b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE'])
+b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE',
+b'TDLOAD', b'WINPUT'])
 
 
 class SequentialFile(object):
-- 
2.43.0


From 0080547773b697c961b171cb032ae438e9f07440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 08/26] fix: writing records to formatted files

---
 freesif/sequentialparser/sequentialfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index eb3f805..83e33a8 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -354,7 +354,7 @@ class FormattedFile(SequentialFile):
             # self.write(' '*self.float_places_left*16 + '\n')
             self.f.write('\n')
 
-        self.write('{:<8}'.format(header))
+        self.f.write('{:<8}'.format(header))
         for f in rec:
             self.f.write('{:>16.8e}'.format(f))
 
-- 
2.43.0


From caec7b0549d48eaa6e605aabf21c50bfa16982c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 09/26] fix: blank line after a string written below a partly
 filled line

---
 freesif/sequentialparser/sequentialfiles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 83e33a8..4d4ca24 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -365,6 +365,7 @@ class FormattedFile(SequentialFile):
     def write_string(self, string, leading_blanks=8):
         if self.float_places_left:
             self.f.write('\n')
+            self.float_places_left = 0
 
         self.f.write(' '*leading_blanks + string + '\n')
 
-- 
2.43.0


From a32fef6531abc268aecc1c97659f342294c33dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 10/26] fix: last digit lost when the last line has no newline

---
 freesif/sequentialparser/sequentialfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 4d4ca24..0893026 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -275,7 +275,7 @@ class FormattedFile(SequentialFile):
     def read_stringrec(self):
         self.hasrest = False
 
-        return self.f.readline()[:-1]  # skip the newline character
+        return self.f.readline().rstrip('\n')  # skip the newline character
 
     def tofloatrec(self, stringrec):
         return tuple([float(stringrec[i:i+16])
-- 
2.43.0


From 4d6ed7626d12b51e8a911cc3c1e0f863e386aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 11/26] fix: WDRESREF records without a reference type pointed
 at previous data

---
 freesif/sequentialparser/parsers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index b9b4e92..0810ba6 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -2039,6 +2039,8 @@ def wdresref_reader(rec_name, rec, in_file, out_file):
     times = vldata(time_arr)
     recs = recdata(table, dirs, freqs, times)
     while rec_name == 'WDRESREF':
+        for refs in (dirs, freqs, times):
+            refs.add(None)  # reference types not present on this record
         for _ in range(int(rec[3])):
             irefty = int(in_file.read_floats(1)[0])
             dat = []
-- 
2.43.0


From 6ee9c9a154b1bb7aa90e429bb27ea83d39e7e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 12/26] fix: VtuWriter modified the arrays given by the caller

---
 freesif/utils/writers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 27079c9..b539992 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -106,8 +106,9 @@ class VtuWriter(object):
         self._close_piece()
         self._piece_open = True
 
-        _reorder_connectivity_vtk(cells)
         connectivity, offsets, types = cells
+        connectivity = connectivity.copy()  # do not modify caller's array
+        _reorder_connectivity_vtk((connectivity, offsets, types))
 
         # keep reference to offsets and types
         self._current_offsets = offsets
@@ -146,6 +147,7 @@ class VtuWriter(object):
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
+        arr = arr.copy()  # do not modify caller's array
         _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
         self.add_data(arr, name, compnames)
-- 
2.43.0


From 5a98fc8c6572dfc0ace80d87483ca688af9339ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 13/26] fix: VtuWriter wrote arrays in other byte orders than
 declared

---
 freesif/utils/writers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index b539992..bd0cf61 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -193,7 +193,7 @@ class VtuWriter(object):
 #        self._file.write(b64encode(arr.T.ravel().tostring(order='F')))
 
         header = pack('<Q', nbytes)
-        arrstr = arr.ravel().tostring()
+        arrstr = arr.astype(arr.dtype.newbyteorder('<')).ravel().tobytes()
         self._file.write(b64encode(header + arrstr))
 
         # write newline
-- 
2.43.0


From 5397e4e8d0e088db8ff0bb9dc61da30cf400d512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 14/26] fix: VtuWriter wrote names with special characters as
 malformed XML

---
 freesif/utils/writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index bd0cf61..f22150a 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -6,6 +6,7 @@
 import numpy as np
 from struct import pack
 from base64 import b64encode
+from xml.sax.saxutils import quoteattr
 
 from ..exceptions import VtkError
 
@@ -229,7 +230,7 @@ class VtuWriter(object):
         s += b'<%s' % tag.encode()
         if kwargs:
             s += b' '
-            s += b' '.join([b'%s="%s"' % (str(k).encode(), str(v).encode())
+            s += b' '.join([b'%s=%s' % (str(k).encode(), quoteattr(str(v)).encode())
                 for k, v in list(kwargs.items())])
         if selfclosing:
             s += b' />\n'
-- 
2.43.0


From 7313ad31cba5c86bcd1a7fe9a9c8bac24cc55e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 15/26] fix: files with lower case names were not recognised

---
 freesif/data/file.py                 | 2 +-
 freesif/sequentialparser/sif2hdf5.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 5493760..ba305d5 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -39,7 +39,7 @@ def open_sif(filename):
 
     tbfile = sif2hdf5(filename, in_memory=True)
     prefix, letter, idno, ext = parse_sifname(filename)
-    groupname = prefix + letter + idno
+    groupname = prefix + letter.upper() + idno
     return File(tbfile)[groupname]
 
 def close_all_files():
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index d2b8070..6b3f56b 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -188,7 +188,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
     groupdict = match.groupdict()
     fileprefix = groupdict['prefix']
-    letter = groupdict['letter']
+    letter = groupdict['letter'].upper()
     extension = groupdict['ext']
 
     if extension.upper() == 'SIN':
@@ -256,7 +256,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
         # generate candidate file names
         fnames = []
         ihref = []
-        if extension in ('SIF', 'SIU'):  # structural results files
+        if extension.upper() in ('SIF', 'SIU'):  # structural results files
             for r in hierarch_table[1:]:
                 if r['islevl'] == 1:  # 1st level
                     fnames.append(fileprefix +
-- 
2.43.0


From af23e6c579e857a510c1eda9f0f877781dec0b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 16/26] fix: skipping text records with lines not starting with
 blanks

---
 freesif/sequentialparser/sequentialfiles.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 0893026..2352259 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -128,6 +128,12 @@ class SequentialFile(object):
                 self.read_stringrec()
             return self.read_headerrec()
 
+        # text lines may start with any characters:
+        if rec_name in ('DATE', 'TEXT'):
+            for i in range(int(rec[2])):
+                self.read_stringrec()
+            return self.read_headerrec()
+
         #read first record
         pos = self.f.tell()  # current position in in_file
         string_rec = self.read_stringrec()
-- 
2.43.0


From dcc64e952338ba32a388b0ab5ecc97139b7b7961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 17/26] fix: skipping the last record read past the end of the
 file

---
 freesif/sequentialparser/sequentialfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 2352259..b0f14a9 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -128,6 +128,10 @@ class SequentialFile(object):
                 self.read_stringrec()
             return self.read_headerrec()
 
+        # end of file:
+        if rec_name == 'IEND' and rec[0] == 0.:
+            return None, None
+
         # text lines may start with any characters:
         if rec_name in ('DATE', 'TEXT'):
             for i in range(int(rec[2])):
-- 
2.43.0


From d7b11e533d54679b76eab871f420252c02eda666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 18/26] fix: section records without optional fields ending
 with one value left on the line

---
 freesif/sequentialparser/parsers.py         | 6 ++++--
 freesif/sequentialparser/sequentialfiles.py | 8 ++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 0810ba6..7f92840 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -391,8 +391,10 @@ def reader_optionalfields(record_name, descriptor, skipfirst=0, noptf=0):
 
             rec += in_file.read_floats(n_add_fl, skipfirst)
 
-            if not in_file.at_headerrec():
-                rec += in_file.read_floats(noptf, skipfirst)
+            for _ in range(noptf):
+                if in_file.at_headerrec():
+                    break
+                rec += in_file.read_floats(1, skipfirst)
 
             # pad or remove values to match ncols
             if len(rec) != ncols:
diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index b0f14a9..81e17ea 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -241,9 +241,7 @@ class UnformattedFile(SequentialFile):
             floats = floatrest
 
         self.floatrest = floats[n:]
-
-        if len(self.floatrest) > 0:
-            self.hasrest = True
+        self.hasrest = len(self.floatrest) > 0
 
         return floats[:n]
 
@@ -331,9 +329,7 @@ class FormattedFile(SequentialFile):
             floats = floatrest
 
         self.floatrest = floats[n:]
-
-        if len(self.floatrest) > 0:
-            self.hasrest = True
+        self.hasrest = len(self.floatrest) > 0
 
         return floats[:n]
 
-- 
2.43.0


From f2ef204fb4606acb1beeea1cbf6ab3bc807eb0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 19/26] fix: disconnected node results when some nodes are not
 used by elements

---
 freesif/data/strucdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 2c3b4f4..51d2121 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -570,7 +570,8 @@ class FirstLevelData(StrucData):
         # disconnect
         if disconnected:
             indices = self._get_nodeindices(sets, kind, disconnected)
-            indices = self._update_connectivity(indices)
+            if sets or kind:
+                indices = self._update_connectivity(indices)
             axis = 0 if nres == 1 else 1
             return data.take(indices, axis=axis)
 
-- 
2.43.0


From e8ba366155b64443a66177be848f2d9479712388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 20/26] fix: a piece with unusable arrays left VTU elements
 open

---
 freesif/utils/writers.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index f22150a..2dc17a5 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -103,22 +103,27 @@ class VtuWriter(object):
     def new_piece(self, points, cells):
         """
         """
-        self._close_data()
-        self._close_piece()
-        self._piece_open = True
-
         connectivity, offsets, types = cells
         connectivity = connectivity.copy()  # do not modify caller's array
         _reorder_connectivity_vtk((connectivity, offsets, types))
+        vtktypes = typeidmapper(types)
+
+        # check all arrays before any element is opened
+        for arr in (points, connectivity, offsets, vtktypes):
+            self._check_array(arr)
+
+        self._close_data()
+        self._close_piece()
 
         # keep reference to offsets and types
         self._current_offsets = offsets
         self._current_types = types
 
-        types = typeidmapper(types)
+        types = vtktypes
 
         self._open_element('Piece', NumberOfPoints=len(points),
                            NumberOfCells=len(offsets))
+        self._piece_open = True
 
         # write points
         self._open_element('Points')
@@ -161,15 +166,17 @@ class VtuWriter(object):
         self._close_element('VTKFile')
         self._file.close()
 
+    def _check_array(self, arr):
+        if arr.ndim not in (1, 2):
+            raise VtkError('array must be 1d or 2d')
+        if arr.dtype.name not in numpy2vtk_datatype:
+            raise VtkError('data type {} not supported'.format(arr.dtype.name))
+
     def _write_array(self, arr, name, compnames=None):
 
         # accept 1d or 2d array
-        if arr.ndim == 2:
-            ncomps = arr.shape[1]
-        elif arr.ndim == 1:
-            ncomps = 1
-        else:
-            raise VtkError('array must be 1d or 2d')
+        self._check_array(arr)
+        ncomps = arr.shape[1] if arr.ndim == 2 else 1
 
         # create comp name kwargs
         if compnames:  # sequence of str
-- 
2.43.0


From fad0699afa10832e23eed867c6ab278cc52dad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 21/26] fix: skipping TSLAYER records like other records with
 text lines

---
 freesif/sequentialparser/sequentialfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 81e17ea..156dbb4 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -121,7 +121,7 @@ class SequentialFile(object):
             return self.read_headerrec()
 
         # workaround to handle TDxxxxxx records (on unformatted files):
-        if rec_name[:2] == 'TD':
+        if rec_name[:2] == 'TD' or rec_name == 'TSLAYER':
             for i in range(int(rec[2]) // 100):
                 self.read_stringrec()
             for i in range(int(rec[3]) // 100):
-- 
2.43.0


From c93e506188e91ecf16c921d9f2bcaf5f42be9333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 22/26] fix: numpy integers as hierarchy level scaled the
 coordinates

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 51d2121..aebbde7 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -468,7 +468,7 @@ class FirstLevelData(StrucData):
                                                                   index, 'top')
                     else:
                         raise ValueError('legal string argument: "top"')
-                elif isinstance(trans, int):
+                elif isinstance(trans, (int, np.integer)):
                     trans = self._toplevel.get_transformation(self._seltyp,
                                                               index, trans)
             elif self._has_record('rsuptran') and trans=='top':
-- 
2.43.0


From 1bed657fad6d6b94518802e4ade278c6c878dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 23/26] fix: transformation to level one of superelements that
 do not exist

---
 freesif/data/strucdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index aebbde7..c901802 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -224,10 +224,12 @@ class TopLevelData(HigherLevelData):
         hierarch, ihsref = self._get_record('hierarch')
         hsuptran = self._get_record('hsuptran')
         toplevel = hierarch[0]['islevl']
+        cond = '(iselty=={})&(indsel=={})'.format(seltyp, index)
 
         if level == 'top':
             level = toplevel
         elif level == 1:
+            getrow(hierarch, cond)  # check that the superelement exists
             return np.diag(np.ones(4, 'f'))
         elif level > toplevel:
             raise HierarchyError('level {} does not exist, toplevel is '
@@ -236,7 +238,6 @@ class TopLevelData(HigherLevelData):
             raise HierarchyError('level must be 1 or above, got '
                                  '{}'.format(level))
 
-        cond = '(iselty=={})&(indsel=={})'.format(seltyp, index)
         r = getrow(hierarch, cond)
         t = getrow(hsuptran, 'itref=={}'.format(r['itref']))['t']
         rp = getrow(hierarch, 'ihref=={}'.format(r['ihpref']))
-- 
2.43.0


From da70015a5f4b4ca9d079976cdc445b8fbb4a80d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 24/26] fix: names that only start like interface file names
 were accepted

---
 freesif/data/helpers.py              | 4 ++--
 freesif/sequentialparser/sif2hdf5.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/helpers.py b/freesif/data/helpers.py
index b0dde68..0fba7f3 100644
--- a/freesif/data/helpers.py
+++ b/freesif/data/helpers.py
@@ -34,8 +34,8 @@ def parse_sifname(filename):
     name_pattern = '(?i)(?P<prefix>[\w-]*?)' + \
                    '(?P<letter>[rtgl])' + \
                    '(?P<selno>[1-9]\d*)' + \
-                   '(H[1-9]\d*)?.' + \
-                   '(?P<ext>(si[fun]|fem))'
+                   '(H[1-9]\d*)?\.' + \
+                   '(?P<ext>(si[fun]|fem))$'
 
     match = re.match(name_pattern, fname)
 
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 6b3f56b..472836a 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -178,8 +178,8 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
     name_pattern = '(?i)(?P<prefix>[\w-]*?)' + \
                    '(?P<letter>[rtgl])' + \
-                   '[1-9]\d*(H[1-9]\d*)?.' + \
-                   '(?P<ext>(si[fun]|fem))'
+                   '[1-9]\d*(H[1-9]\d*)?\.' + \
+                   '(?P<ext>(si[fun]|fem))$'
 
     match = re.match(name_pattern, fname)
 
-- 
2.43.0


From b42e191444c9cc2ae4a7224e554932af64390584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 25/26] fix: closed data objects reported unknown result types
 instead of being closed

---
 freesif/data/strucdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index c901802..36f11d6 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -529,6 +529,8 @@ class FirstLevelData(StrucData):
             represent the six degrees of freedom for the result type.
         """
 
+        self._check_isopen()
+
         if restype == 'displacement':
             rvnodres, res = self._get_record('rvnoddis')
             start, stop = 'dis_start', 'dis_stop'
@@ -761,6 +763,8 @@ class FirstLevelData(StrucData):
 
         """
 
+        self._check_isopen()
+
         if restype == 'beamforce':
             rvres, res = self._get_record('rvforces')
             start, stop = 'force_start', 'force_stop'
-- 
2.43.0


From d86fd6d8e6f3c954ff35640d865b93dcceb1f605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 26/26] fix: results of body number zero were those of all
 bodies

---
 freesif/data/hydrodata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index f5df243..96e500b 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -101,7 +101,7 @@ class HydroData(SifData):
         """
 
         res = self._get_record(rec_name)
-        if bodyid:
+        if bodyid is not None:
             ibcond = self._get_ibcond(bodyid)
             # get all records for this ibcond
             res_recs = res.read_where('ibcond=={}'.format(ibcond))
-- 
2.43.0

