From 35aad0ed579d68dc4dad8044659de7753357cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:02 +0000
Subject: [PATCH 01/54] fix: MDIF reader ended every file with RuntimeError,
 and truncated blocks were not rejected

StopIteration escaping from a generator is a RuntimeError on Python >= 3.7, so
no MDIF file could be read. End of file is now accepted only between blocks;
a file that ends inside a block raises MDIFError.
---
 hftools/file_formats/mdif.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index d41db6b..e251e74 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -198,17 +198,25 @@ class ReadMDIFFileFormat(ReadFileFormat):
         containing a measurement data block.
         """
         while True:
-            comments = ManyOptional("COMMENT")(stream)
+            try:
+                comments = ManyOptional("COMMENT")(stream)
+                stream.push(next(stream))
+            except StopIteration:
+                return  # A file may only end between blocks
 
             def split_eq(rad):
                 return [x.strip() for x in rad.split("=")]
-            var = ManyOptional("VAR", split_eq)(stream)
-            blockname = One("BEGIN", "Must have Begin after VARs")(stream)
-            attribs = ManyOptional("ATTRIB", split_eq)(stream)
-            header = ManyOptional("HEADER", lambda rad: rad.split())(stream)
-            data = ManyOptional("DATA")(stream)
-            out = (comments, var, blockname, header, attribs, data)
-            One("END", "Must have END after DATA")(stream)
+            try:
+                var = ManyOptional("VAR", split_eq)(stream)
+                blockname = One("BEGIN", "Must have Begin after VARs")(stream)
+                attribs = ManyOptional("ATTRIB", split_eq)(stream)
+                header = ManyOptional("HEADER",
+                                      lambda rad: rad.split())(stream)
+                data = ManyOptional("DATA")(stream)
+                out = (comments, var, blockname, header, attribs, data)
+                One("END", "Must have END after DATA")(stream)
+            except StopIteration:
+                raise MDIFError("File ended inside a block, END is missing")
             yield out
 
     def parse_blocks(self, stream):
-- 
2.43.0


From 4981a97f7274b5b8eee8667f13933e1210f0ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:09 +0000
Subject: [PATCH 02/54] fix: save_mdif failed for swept or attribute-free
 datasets and its multi-block files could not be read back

Blocks were indexed with coordinate values instead of positions, a block
without attributes raised ValueError, text scalars were written as real
attributes, the blockname was dropped, and a property from the file header
made merging of the remaining blocks fail.
---
 hftools/dataset/dataset.py   |  1 +
 hftools/file_formats/mdif.py | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 2fd55be..1675530 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -44,6 +44,7 @@ class DataBlockError(Exception):
 def subset_datablock_by_dims(db, dims):
     """Get subset of db with variables with matching dims."""
     out = DataBlock()
+    out.blockname = db.blockname
     dimset = set(dims)
     if len(dims) != len(dimset):
         msg = "dims %r did not specify unique dimensions %r" % (dims, dimset)
diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index e251e74..44c3c2d 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -26,7 +26,7 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
     make_vector, yield_dim_consistent_datablocks, convert_matrices_to_elements
 
 
-from hftools.utils import glob
+from hftools.utils import glob, is_numlike
 from hftools.file_formats.common import Comments,\
     format_complex_header, format_elem
 from hftools.file_formats.readbase import ManyOptional,\
@@ -339,6 +339,9 @@ def simple_merge_blocks(blocks):
     out = DataBlock()
     #import pdb;pdb.set_trace()
     for k in blocks[0].vardata:
+        if not blocks[0][k].dims and not all(k in b for b in blocks):
+            out[k] = blocks[0][k]  # property from comments in file header
+            continue
         out[k] = hfarray([b[k] for b in blocks],
                          dims=(ri,) + blocks[0][k].dims)
         if blocks[0][k].dims:
@@ -471,7 +474,8 @@ def fixnames(mdif):
 def fmt_mdif_block(dims, db):
     dimnames = [x.name for x in dims]
     fmts = [x.outputformat for x in dims]
-    for coord in itertools.product(*[x.data for x in dims[1:]]):
+    for idx in itertools.product(*[range(len(x.data)) for x in dims[1:]]):
+        coord = [x.data[i] for x, i in zip(dims[1:], idx)]
         for iname, fmt, value in zip(dimnames[1:], fmts[1:], coord):
 #            import pdb;pdb.set_trace()
             yield [("VAR SWEEP.%s(real) = " + fmt) % (iname, value)]
@@ -480,21 +484,23 @@ def fmt_mdif_block(dims, db):
             blockname = "DATABLOCK"
         yield ["BEGIN %s" % blockname]
 
-        attribnames, attribdata = zip(*[(k, v) for (k, v) in db.vardata.items()
-                                        if v.dims == dims[1:]])
+        #attributes can only hold numbers
+        attribs = [(k, v) for (k, v) in db.vardata.items()
+                   if v.dims == dims[1:] and is_numlike(v)]
+        attribnames = [k for k, v in attribs]
+        attribdata = [v for k, v in attribs]
         attribheader = format_complex_header(attribnames, attribdata,
                                              "%s(real)", "%s(complex)",
                                              None, unit_fmt=False)
         for name, data in zip(attribheader, attribdata):
-            yield [("# %s = %s" % (name, data.outputformat)) % data[coord]]
+            yield [("# %s = %s" % (name, data.outputformat)) % data[idx]]
 
         header, columns = zip(*[(k, v) for (k, v) in db.vardata.items()
 
                                 if v.dims == dims])
         header = (dims[0].name, ) + header
 
-        idx = (Ellipsis,) + coord
-        columns = [col[idx] for col in columns]
+        columns = [col[(slice(None),) + idx] for col in columns]
         columns = [hfarray(dims[0])] + columns
         outheader = format_complex_header(header, columns,
                                           "%s(real)", "%s(complex)",
-- 
2.43.0


From cbbc06db408be3e0f761a4612cd73d13c3248f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:37 +0000
Subject: [PATCH 03/54] fix: saving SP-data with unswept dimensions raised
 RuntimeError and ordered them by hash seed

---
 hftools/file_formats/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 302cebd..0a9592e 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -387,7 +387,7 @@ def make_block_iterator(data, first=False):
         comments = data.comments
         yield (sweepvars, header, fmts, columns,
                blockname, comments)
-        raise StopIteration
+        return
     d = data.vardata.values()[0]
     if ismatrix(d):
         dimsnames = [x.name for x in d.dims[:-2]]
@@ -450,7 +450,9 @@ def db_iterator(indb, fmt_block_generator):
     for names in datablock.keys():
         used_ivars = used_ivars.union(names)
 
-    for vname in set(indb.ivardata).difference(used_ivars):
+    for vname in indb.ivardata:
+        if vname in used_ivars:
+            continue
         q = datablock.setdefault((vname,), DataBlock())
         if q.comments is None:
             q.comments = Comments()
-- 
2.43.0


From 8d7682ccf2ea7692e7a6f2a23b714a29e722f2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:17 +0000
Subject: [PATCH 04/54] fix: read_data failed on binary or non-ASCII files,
 leaked the sniffing handle and picked the sniffed file by directory order

---
 hftools/file_formats/__init__.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index ab92fee..138743f 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -24,7 +24,7 @@ This package contains routines to read and write data.
 .. automodule:: hftools.file_formats.citi
 
 """
-import glob
+import io
 import re
 from contextlib import contextmanager
 from hftools.core.exceptions import HFToolsIOError
@@ -40,6 +40,7 @@ from hftools.file_formats.hdf5 import read_hdf5, save_hdf5, is_hdf5,\
     append_hdf5
 from hftools.file_formats.muwave_mat import read_muwave_matlabdata,\
     is_muwave_matlabdata
+from hftools.utils import glob
 from hftools._external import path
 
 isfile = [(is_mdif, read_mdif),
@@ -64,22 +65,24 @@ def read_data(filename, merge=True, guess_unit=True,
     else:
         filenames = [filename]
     for f in filenames:
-        files = glob.glob(f)
+        files = glob(f)
         if len(files) != 0:
             fname = files[0]
             break
     else:
         raise IOError("No files match pattern %r" % filename)
-    fil = open(fname)
-    for rad in fil:
-        for fun, readfun in isfile:
-            if fun(fname, rad):
-                fil.close()
-                return readfun(filename, merge=merge, guess_unit=guess_unit,
-                               property_to_vars=property_to_vars, **kw)
-    fil.close()
-    return read_spdata(filename, merge=merge, guess_unit=guess_unit,
-                       property_to_vars=property_to_vars, **kw)
+    selected = read_spdata
+    with io.open(fname, encoding="cp1252", errors="replace") as fil:
+        for rad in fil:
+            for fun, readfun in isfile:
+                if fun(fname, rad):
+                    selected = readfun
+                    break
+            else:
+                continue
+            break
+    return selected(filename, merge=merge, guess_unit=guess_unit,
+                    property_to_vars=property_to_vars, **kw)
 
 
 @contextmanager
-- 
2.43.0


From 7648e9e41ec0ee740b6947556bf608b2e1f4e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:48 +0000
Subject: [PATCH 05/54] fix: append_hdf5 never numbered the appended record and
 a rejected append left the file half expanded

---
 hftools/file_formats/hdf5/v_02.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 6ec152e..4a8ff3a 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -183,10 +183,8 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         raise Exception("Can only append to hftools version 0.2")
     if expanddim is None:
         expanddim = DimRep("INDEX", 1)
-    idx = filehandle[expanddim.name][-1] + 1
-    expand_dataset(filehandle[expanddim.name], 1, 0)
-    filehandle[expanddim.name].value[-1] = idx
-
+    #Check everything before changing the file
+    appends = []
     for k, v in filehandle.items():
         uk = unescape_varname(k)
         if uk in db.ivardata or uk == expanddim.name:
@@ -195,6 +193,17 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
             raise ValueError("Variable %r missing in db, can not append" % uk)
         diskdata = filehandle[k]
         ax = diskdata.maxshape.index(None)
+        data = cast_arrays_to_hdf5(db[uk])
+        if not np.can_cast(data.dtype, diskdata.dtype, "same_kind"):
+            raise ValueError("Variable %r has wrong type, can not append" % uk)
+        np.broadcast_to(data, diskdata.shape[:ax] + diskdata.shape[ax + 1:])
+        appends.append((diskdata, ax, data))
+
+    idx = filehandle[expanddim.name][-1] + 1
+    expand_dataset(filehandle[expanddim.name], 1, 0)
+    filehandle[expanddim.name][-1] = idx
+
+    for diskdata, ax, data in appends:
         expand_dataset(diskdata, 1, ax)
         s = (slice(None),) * ax + (diskdata.shape[ax] - 1,)
-        diskdata[s] = cast_arrays_to_hdf5(db[uk])
+        diskdata[s] = data
-- 
2.43.0


From 7c3d77c219be659feac47bc0794e9fc2e9bccccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:41 +0000
Subject: [PATCH 06/54] fix: ordering of file names raised TypeError when a
 number met text, and nan or inf in a name made the order arbitrary

---
 hftools/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hftools/utils.py b/hftools/utils.py
index 5046b86..3b01403 100644
--- a/hftools/utils.py
+++ b/hftools/utils.py
@@ -155,9 +155,16 @@ def split_num(string):
     return [to_numeric(x, False) for x in reg_split.findall(string)], string
 
 
+def lex_key(string):
+    """Sort key where numbers are ordered by value and before text
+    """
+    tokens = [(0, int(x), "") if x[0] in "0123456789" else (1, 0, x)
+              for x in reg_split.findall(string)]
+    return tokens, string
+
+
 def lex_order(lista):
-    ordered = sorted(list(map(split_num, lista)))
-    return [orig for _, orig in ordered]
+    return sorted(lista, key=lex_key)
 
 
 def glob(pat):
-- 
2.43.0


From f52be529b9d4f1b7bd3ff26b8c51648ab24482d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:59 +0000
Subject: [PATCH 07/54] fix: order of merged variables and of saved MDIF blocks
 depended on the hash seed and memory addresses

---
 hftools/dataset/dataset.py    | 9 +++++----
 hftools/file_formats/merge.py | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 1675530..e4d2bba 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -19,6 +19,7 @@ TODO:
 """
 import itertools
 import re
+from collections import OrderedDict
 
 import numpy as np
 import numpy.random as rnd
@@ -58,15 +59,15 @@ def subset_datablock_by_dims(db, dims):
 
 
 def yield_dim_consistent_datablocks(db):
-    dimset = set()
+    dimset = OrderedDict()  # order must not depend on hash values
     for v in db.vardata.values():
-        dimset.add(v.dims)
+        dimset[v.dims] = None
     while dimset:
         longest = sorted(dimset, key=len)[-1]
         yield longest, subset_datablock_by_dims(db, longest)
-        dimset.discard(longest)
+        dimset.pop(longest, None)
         if len(longest) > 1:
-            dimset.discard(longest[1:])
+            dimset.pop(longest[1:], None)
 
 
 def convert_matrices_to_elements(db, formatelement=None):
diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index f086cc4..b087d47 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -171,13 +171,14 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             db[k] = hfarray([x.data[0] for x in v],
                             dims=dims, unit=v[0].unit)
 
-    varnames = set()
+    varnames = []
     for b in blocks:
         for k, v in b.ivardata.items():
             if k not in db:
                 db[k] = v
         for k in b.vardata.keys():
-            varnames.add(k)
+            if k not in varnames:
+                varnames.append(k)
 
     for vname in varnames:
         v = []
-- 
2.43.0


From effe31634cb6ccbdc9c443be806b90e41ef2e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:24 +0000
Subject: [PATCH 08/54] fix: concurrent start_log calls could install two
 handlers, one of which stop_log never removed

---
 hftools/logger.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hftools/logger.py b/hftools/logger.py
index 6118687..b3fe1ab 100644
--- a/hftools/logger.py
+++ b/hftools/logger.py
@@ -8,10 +8,12 @@
 #-----------------------------------------------------------------------------
 import logging
 import sys
+import threading
 
 logger = logging.getLogger("hftools")
 logger.setLevel(logging.INFO)
 _stream_handler = None
+_lock = threading.Lock()
 
 
 class NULLHandler(logging.Handler):
@@ -24,15 +26,17 @@ def start_log():
     """start_log starts logging of hftools channel to stderr
     """
     global _stream_handler
-    if not _stream_handler:
-        _stream_handler = logging.StreamHandler(sys.stderr)
-        logger.addHandler(_stream_handler)
+    with _lock:
+        if not _stream_handler:
+            _stream_handler = logging.StreamHandler(sys.stderr)
+            logger.addHandler(_stream_handler)
 
 
 def stop_log():
     """start_log stops logging of hftools channel to stderr
     """
     global _stream_handler
-    if _stream_handler:
-        logger.removeHandler(_stream_handler)
-        _stream_handler = None
+    with _lock:
+        if _stream_handler:
+            logger.removeHandler(_stream_handler)
+            _stream_handler = None
-- 
2.43.0


From 1688ef124e364c16dde9e152536232cdc77642e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:42 +0000
Subject: [PATCH 09/54] fix: make_dirs and path.makedirs(silent=True) failed
 when another process created the directory first

---
 hftools/_external/path.py | 5 ++++-
 hftools/utils.py          | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/hftools/_external/path.py b/hftools/_external/path.py
index 725ee1b..0343d3d 100644
--- a/hftools/_external/path.py
+++ b/hftools/_external/path.py
@@ -608,8 +608,11 @@ class path(_base):
 
     def makedirs(self, mode=0o0777, silent=False):
         if silent:
-            if not self.exists():
+            try:
                 os.makedirs(self, mode)
+            except OSError:
+                if not self.exists():
+                    raise
         else:
             os.makedirs(self, mode)
 
diff --git a/hftools/utils.py b/hftools/utils.py
index 3b01403..512b1b6 100644
--- a/hftools/utils.py
+++ b/hftools/utils.py
@@ -145,8 +145,11 @@ def make_dirs(*pathsegments):
        make_dirs('c:/', 'kalle')  -> skapar c:\kalle\
     """
     x = os.path.join(*pathsegments)
-    if not os.path.isdir(x):
+    try:
         os.makedirs(x)
+    except OSError:
+        if not os.path.isdir(x):
+            raise
 
 reg_split = re.compile("[^0-9]+|[0-9]+")
 
-- 
2.43.0


From 18c0e99bd7f4a31b776f3f3b3d9039ea347ff8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:58 +0000
Subject: [PATCH 10/54] fix: read_to_cache left a partial cache file behind
 when saving was interrupted, and served it from then on

---
 hftools/file_formats/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index 138743f..644e153 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -25,7 +25,10 @@ This package contains routines to read and write data.
 
 """
 import io
+import os
 import re
+import shutil
+import tempfile
 from contextlib import contextmanager
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments, normalize_names
@@ -102,7 +105,13 @@ def read_to_cache(filename, cachename=None, cachedir=None,
     if not cachename.exists() or reread:
         data = read_data(filename, verbose=verbose)
         yield data, True
-        save_hdf5(data, cachename)
+        # Never let an incomplete cache file be visible under its real name
+        tempdir = path(tempfile.mkdtemp(prefix="tmp-", dir=cachedir))
+        try:
+            save_hdf5(data, tempdir / "data.hdf5")
+            getattr(os, "replace", os.rename)(tempdir / "data.hdf5", cachename)
+        finally:
+            shutil.rmtree(tempdir, ignore_errors=True)
     else:
         data = read_hdf5(cachename)
         yield data, False
-- 
2.43.0


From b3086b9e692ae708368c1d525895e06a9c793b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:39 +0000
Subject: [PATCH 11/54] fix: save_mdif and save_spdata left the file open when
 saving failed

---
 hftools/file_formats/mdif.py   | 13 ++++++-------
 hftools/file_formats/spdata.py | 13 +++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 44c3c2d..a24bae6 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -526,13 +526,12 @@ def loop_db(db):
 
 
 def save_mdif(db, filename):
-    fil = open(filename, "w")
-    fil.write("!Created: %s\n" % time.asctime())
-    #for rad in db_iterator(db, format_mdif_block):
-    for rad in loop_db(convert_matrices_to_elements(db)):
-        fil.write("\t".join(rad))
-        fil.write("\n")
-    fil.close()
+    with open(filename, "w") as fil:
+        fil.write("!Created: %s\n" % time.asctime())
+        #for rad in db_iterator(db, format_mdif_block):
+        for rad in loop_db(convert_matrices_to_elements(db)):
+            fil.write("\t".join(rad))
+            fil.write("\n")
 
 
 def read_mdif(filnamn, make_complex=True, property_to_vars=True,
diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 1389bcb..947ff9b 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -183,12 +183,13 @@ def save_spdata(db, filename, encoding="cp1252"):
         fil = io.open(filename, "w", encoding=encoding)
     else:
         fil = filename
-    for rad in db_iterator(db, format_sp_block):
-        fil.write(u"\t".join(rad))
-        fil.write(u"\n")
-
-    if isinstance(filename, string_types):
-        fil.close()
+    try:
+        for rad in db_iterator(db, format_sp_block):
+            fil.write(u"\t".join(rad))
+            fil.write(u"\n")
+    finally:
+        if isinstance(filename, string_types):
+            fil.close()
 
 
 def read_spdata(filnamn, make_complex=True, property_to_vars=True,
-- 
2.43.0


From b3e79289799c4289f2f066ebdddbba1c0a2e90cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:56 +0000
Subject: [PATCH 12/54] fix: read_mdif returned nothing instead of raising for
 missing files and blocks, and rejected lists of files

---
 hftools/file_formats/mdif.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index a24bae6..2051f0a 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -126,9 +126,16 @@ class ReadMDIFFileFormat(ReadFileFormat):
         obj.filename = filename
 
         if multiple_files:
-            filenames = glob(filename)
+            if isinstance(filename, (list, tuple)):
+                filenames = []
+                for f in filename:
+                    filenames.extend(glob(f))
+            else:
+                filenames = glob(filename)
         else:
             filenames = [filename]
+        if not filenames:
+            raise IOError("Pattern %r did not match any files" % filename)
         objs = {}
         for idx, fname in enumerate(filenames):
             with open(fname) as fil:
@@ -155,7 +162,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
                 return res[blockname]
             else:
                 msg = "%r not a block in mdif file %r" % (blockname, filename)
-                MDIFError(msg)
+                raise MDIFError(msg)
         else:
             return res
 
-- 
2.43.0


From 2038c2ffcf2cb2c88f27ce85dcb623e9930b7d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:50 +0000
Subject: [PATCH 13/54] fix: Touchstone, CITI and MDIF files were written in
 the locale's encoding but read as cp1252

---
 hftools/file_formats/citi.py       |  8 +++++---
 hftools/file_formats/mdif.py       | 11 ++++++-----
 hftools/file_formats/touchstone.py | 16 +++++++++-------
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 976cbe1..6e72231 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -16,6 +16,7 @@ CITI File Format
     .. autoexception:: CITIFileError
 """
 from __future__ import print_function
+import io
 import re
 
 import numpy as np
@@ -27,6 +28,7 @@ from hftools.file_formats.common import Comments
 
 from hftools.file_formats.readbase import ManyOptional, One, Token,\
     ReadFileFormat, Optional, OneOf
+from hftools.py3compat import cast_unicode
 from hftools.utils import is_numlike
 
 reg_outerfun = re.compile(r"^([A-Za-z_][A-Za-z_0-9]*)\((.*)\)(.*)")
@@ -246,10 +248,10 @@ def is_citi(filename, rad):
 def save_citi(db, filename):
     """Write a Datablock to a sp-format file with name filename.
     """
-    with open(filename, "w") as fil:
+    with io.open(filename, "w", encoding="cp1252") as fil:
         for rad in format_citi_block(db):
-            fil.write(rad)
-            fil.write("\n")
+            fil.write(cast_unicode(rad))
+            fil.write(u"\n")
 
 
 def read_citi(filnamn, make_complex=True, property_to_vars=True,
diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 2051f0a..8b45413 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -16,6 +16,7 @@ MDIF
 
 """
 from __future__ import print_function
+import io
 import re
 import itertools
 import time
@@ -138,7 +139,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             raise IOError("Pattern %r did not match any files" % filename)
         objs = {}
         for idx, fname in enumerate(filenames):
-            with open(fname) as fil:
+            with io.open(fname, encoding="cp1252") as fil:
                 res = obj.do_file(fil)
                 for k, v in res.items():
                     if isinstance(v, list):
@@ -533,12 +534,12 @@ def loop_db(db):
 
 
 def save_mdif(db, filename):
-    with open(filename, "w") as fil:
-        fil.write("!Created: %s\n" % time.asctime())
+    with io.open(filename, "w", encoding="cp1252") as fil:
+        fil.write(u"!Created: %s\n" % time.asctime())
         #for rad in db_iterator(db, format_mdif_block):
         for rad in loop_db(convert_matrices_to_elements(db)):
-            fil.write("\t".join(rad))
-            fil.write("\n")
+            fil.write(u"\t".join(rad))
+            fil.write(u"\n")
 
 
 def read_mdif(filnamn, make_complex=True, property_to_vars=True,
diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 821d56a..8212db4 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -16,6 +16,7 @@ Touchstone
     .. autofunction:: save_touchstone
 
 """
+import io
 import re
 import numpy as np
 from numpy import iscomplexobj, sqrt
@@ -28,6 +29,7 @@ from hftools.file_formats.common import Comments, db_iterator,\
     make_col_from_matrix
 from hftools.file_formats.readbase import Token
 from hftools.file_formats.readbase import ReadFileFormat
+from hftools.py3compat import cast_unicode
 
 
 class TouchstoneError(Exception):
@@ -227,15 +229,15 @@ def format_touchstone_block(sweepvars, header, fmts,
 def save_touchstone(db, filename):
     """Write a Datablock to a touchstone-format file with name filename.
     """
-    with open(filename, "w") as fil:
+    with io.open(filename, "w", encoding="cp1252") as fil:
         for comment in db.comments.fullcomments:
-            fil.write("!" + comment)
-            fil.write("\n")
+            fil.write(u"!" + cast_unicode(comment))
+            fil.write(u"\n")
         for k, v in db.vardata.items():
             if v.shape == ():
-                fil.write("!%s: %s\n" % (k, v.outputformat % v))
+                fil.write(u"!%s: %s\n" % (k, v.outputformat % v))
 #            fil.write("\t".join(rad))
-        fil.write("#HZ S RI R 50\n")
+        fil.write(u"#HZ S RI R 50\n")
 
 
         header, columns = make_col_from_matrix([db.S.dims[0].name, "S"], [hfarray(db.S.dims[0]), db.S],
@@ -250,8 +252,8 @@ def save_touchstone(db, filename):
                     out.append(fmt % elem.imag)
                 else:
                     out.append(fmt % elem)
-            fil.write("\t".join(out))
-            fil.write("\n")
+            fil.write(u"\t".join(out))
+            fil.write(u"\n")
 
 
 def read_touchstone(filnamn, make_complex=True, property_to_vars=True,
-- 
2.43.0


From 15db9964e07c3606c21ed733b3ee8211a50da684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:09 +0000
Subject: [PATCH 14/54] fix: save_citi wrote scalar variables as swept data,
 which made the file unreadable

---
 hftools/file_formats/citi.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 6e72231..d7b2480 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -179,8 +179,12 @@ def handle_data(data, typ):
 
 def format_citi_block(inblock):
     block = DataBlock()
+    scalars = []
     for k, v in inblock.vardata.items():
-        block[k] = v
+        if v.dims:
+            block[k] = v
+        elif is_numlike(v):
+            scalars.append((k, v))
     block.blockname = inblock.blockname
     block.comments = inblock.comments
     yield "CITIFILE A.01.01"
@@ -190,6 +194,8 @@ def format_citi_block(inblock):
             yield "!" + comment.lstrip("!")
     else:
         pass
+    for name, value in scalars:  # DATA always covers all VARs
+        yield "!%s: %s" % (name, value.outputformat % value)
     yield "NAME %s" % block.blockname
 
     for name, value in block.ivardata.items():
-- 
2.43.0


From ffb667704a708f24ff92793805d0ea662d348c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:25 +0000
Subject: [PATCH 15/54] fix: CITI files saved from data with nan or inf could
 not be read back

---
 hftools/file_formats/citi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index d7b2480..aa24f73 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -39,7 +39,7 @@ reg_num_unit = re.compile(r"^[ \t]*([-0-9.eE]+) ?"
 class CITIFileError(HFToolsIOError):
     pass
 
-reg_data = re.compile("[-0-9eE.]+")
+reg_data = re.compile("[-+0-9eE.]+|nan|inf")
 
 
 class ReadCITIFileFormat(ReadFileFormat):
-- 
2.43.0


From 5e887f3a0e5f11c9e1d69b4449a0706c806f146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:00 +0000
Subject: [PATCH 16/54] fix: HDF5 saves ignored write errors that h5py met when
 closing a dataset

Buffered data was written when the dataset objects were dropped, where h5py
can only print the error: save_hdf5 and append_hdf5 returned normally although
the data had not reached the file. Keep the datasets until the file has been
flushed, flush reports the error.
---
 hftools/file_formats/hdf5/v_01.py |  6 +++++-
 hftools/file_formats/hdf5/v_02.py | 20 +++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index af3ee0e..30dbd98 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -31,6 +31,7 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
     else:
         fil = h5file
     grp = fil.create_group(name)
+    dsets = []  # h5py ignores write errors when an open dataset is dropped
     if db.blockname is None:
         blockname = "None"
     else:
@@ -41,7 +42,7 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
     comments = grp.create_group("Comments")
     if db.comments:
         com = np.array([cast_bytes(x) for x in db.comments.fullcomments])
-        comments.create_dataset("fullcomments", data=com, compression=compression)
+        dsets.append(comments.create_dataset("fullcomments", data=com, compression=compression))
 #        pdb.set_trace()
 
     for k in db.vardata:
@@ -59,6 +60,7 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
                 data = data.astype(np.uint64)
             dset = vardata.create_dataset(k, data=data) #can not compress scalars
             name = []
+        dsets.append(dset)
         dset.attrs[r"info\name"] = list(map(cast_bytes, name))
         dset.attrs[r"data\unit"] = cast_bytes(db[k].unit if db[k].unit is not None else "None")
         dset.attrs[r"data\dtype"] = datadtype
@@ -70,10 +72,12 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
             datadtype = data.dtype.name
             data = data.astype(np.uint64)
         dset = ivardata.create_dataset(k, data=data, compression=compression)
+        dsets.append(dset)
         klass, name, unit = unpack_dim(db.ivardata[k])
         dset.attrs[r"info\class"] = klass
         dset.attrs[r"info\unit"] = cast_bytes(unit if unit is not None else "None")
         dset.attrs[r"info\dtype"] = datadtype
+    fil.flush()
     if isinstance(h5file, string_types):
         fil.close()
 
diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 4a8ff3a..9f9dfa8 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -94,8 +94,9 @@ def create_dataset(db, key, data, expandable=False):
             maxshape = tuple(maxshape)
     else:
         maxshape = None
-    db.create_dataset(key, data=data, maxshape=maxshape)
+    dset = db.create_dataset(key, data=data, maxshape=maxshape)
     db[key].attrs["dtype"] = data_dtype.str
+    return dset
 
 
 def read_hdf5_handle(filehandle, **kw):
@@ -127,9 +128,10 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
     if expanddim is None:
         expanddim = DimRep("INDEX", 1)
     filehandle.attrs["hftools file version"] = "0.2"
+    dsets = []  # h5py ignores write errors when an open dataset is dropped
     for k, v in db.ivardata.items():
         ek = escape_varname(k)
-        create_dataset(filehandle, ek, v.data)
+        dsets.append(create_dataset(filehandle, ek, v.data))
         filehandle[ek].attrs["dimtype"] = v.__class__.__name__
         if v.unit:
             filehandle[ek].attrs["unit"] = v.unit
@@ -138,7 +140,8 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
 
     if expandable:
         data = np.array(expanddim.data)
-        filehandle.create_dataset(expanddim.name, data=data, maxshape=(None,))
+        dsets.append(filehandle.create_dataset(expanddim.name, data=data,
+                                               maxshape=(None,)))
         filehandle[expanddim.name].attrs["dtype"] = data.dtype.str
         expanddim_class = expanddim.__class__.__name__
         filehandle[expanddim.name].attrs["dimtype"] = expanddim_class
@@ -156,7 +159,7 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
             v = v.add_dim(expanddim, 1)
         else:
             pass
-        create_dataset(filehandle, ek, v, expandable=expandable)
+        dsets.append(create_dataset(filehandle, ek, v, expandable=expandable))
         for idx, dv in enumerate(v.dims):
             filehandle[ek].dims.create_scale(filehandle[dv.name])
             filehandle[ek].dims[idx].attach_scale(filehandle[dv.name])
@@ -166,6 +169,7 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
             filehandle[ek].attrs["unit"] = v.unit
         if v.outputformat:
             filehandle[ek].attrs["outputformat"] = v.outputformat
+    filehandle.flush()
 
 
 def save_hdf5(db, h5file, expandable=False, expanddim=None, **kw):
@@ -199,11 +203,13 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         np.broadcast_to(data, diskdata.shape[:ax] + diskdata.shape[ax + 1:])
         appends.append((diskdata, ax, data))
 
-    idx = filehandle[expanddim.name][-1] + 1
-    expand_dataset(filehandle[expanddim.name], 1, 0)
-    filehandle[expanddim.name][-1] = idx
+    index = filehandle[expanddim.name]
+    idx = index[-1] + 1
+    expand_dataset(index, 1, 0)
+    index[-1] = idx
 
     for diskdata, ax, data in appends:
         expand_dataset(diskdata, 1, ax)
         s = (slice(None),) * ax + (diskdata.shape[ax] - 1,)
         diskdata[s] = data
+    filehandle.flush()  # reports write errors, closing the datasets does not
-- 
2.43.0


From b934343e600c5a84abecf14a5aec6da8a54b0463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:51 +0000
Subject: [PATCH 17/54] fix: save_touchstone transposed the S matrix of devices
 with more than two ports

The ports of n-ports, n > 2, are stored row by row, and read that way.
---
 hftools/file_formats/touchstone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 8212db4..d5574d0 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -240,8 +240,9 @@ def save_touchstone(db, filename):
         fil.write(u"#HZ S RI R 50\n")
 
 
+        #Only two-port data is stored column by column
         header, columns = make_col_from_matrix([db.S.dims[0].name, "S"], [hfarray(db.S.dims[0]), db.S],
-                                               "%s[%s,%s]", fortranorder=True)
+                                               "%s[%s,%s]", fortranorder=db.S.shape[-1] == 2)
         fmts = [x.outputformat for x in columns]
 
         for row in zip(*columns):
-- 
2.43.0


From 94861f00c4d6cf036a379d0f232e99d1a9ce930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:09 +0000
Subject: [PATCH 18/54] fix: Touchstone files with a single frequency could not
 be read

---
 hftools/file_formats/touchstone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index d5574d0..99f87b1 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -82,7 +82,8 @@ class ReadTouchstoneFileFormat(ReadFileFormat):
 
 
 def process_data(data):
-    max_N = int(sqrt(sum(map(len, data)) - 1) / 2 + 1)
+    #A file with a single frequency has 2 * n ** 2 + 1 values
+    max_N = int(sqrt(max(sum(map(len, data)) - 1, 0) / 2.) + 1.5)
     n = 1  # number of ports
     for n in range(1, max_N):
         N = 2 * n ** 2 + 1  # number of data points per frequency
-- 
2.43.0


From 2d6979a3ef1c5fa152c8d73fa633fe43739f8643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:46 +0000
Subject: [PATCH 19/54] fix: units of dimensions were read as "b'Hz'" from
 version 0.1 HDF5 files

---
 hftools/file_formats/hdf5/v_01.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index 30dbd98..cd60f30 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -108,7 +108,7 @@ def read_hdf5(h5file, name="datablock", **kw):
         v = ivardata[k]
         datadtype = v.attrs[r"info\dtype"] or None
         dimcls = dims_dict.get(v.attrs[r"info\class"], DimRep)
-        unit = str(v.attrs.get(r"info\unit", "none"))
+        unit = cast_unicode(v.attrs.get(r"info\unit", "none"))
         if unit.lower() == "none":
             unit = None
         vdata = np.array(np.array(v), dtype=datadtype)
-- 
2.43.0


From c862bb3dba495ec0ff84ed0437f723eb6571d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:05 +0000
Subject: [PATCH 20/54] fix: save_mdif wrote sweep variables after the first
 block with the formats of the data columns

Sweep values were rounded to integers or left out.
---
 hftools/file_formats/mdif.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 8b45413..517255e 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -515,11 +515,11 @@ def fmt_mdif_block(dims, db):
                                           None, unit_fmt=False)
 
         yield ["% " + " ".join(outheader)]
-        fmts = [x.outputformat for x in columns]
+        colfmts = [x.outputformat for x in columns]
 #        import pdb;pdb.set_trace()
         for row in zip(*columns):
             out = []
-            for elem, fmt in zip(row, fmts):
+            for elem, fmt in zip(row, colfmts):
                 out.extend(format_elem(fmt, elem))
             yield out
         yield ["END"]
-- 
2.43.0


From 0c3e5fe77b35bcf8185d7b97c785a52703bc8e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 21/54] fix: numbers with an exponent in comments lost their
 exponent digits

'1e12' was read as 10, and swept SP-data could not be read back since
'1.0e+06' gave a number without unit attribute.
---
 hftools/constants/si_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 7f4355c..defb05e 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -64,7 +64,7 @@ def unit_to_multiplier(unit):
     else:
         return 1, unit
 
-reg_value = re.compile(r"[-+0-9.]+[eE]?[-+0-9]?")
+reg_value = re.compile(r"[-+0-9.]+([eE][-+]?[0-9]+)?")
 reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
 
 
-- 
2.43.0


From 9f71c52a67d27f7d981663ff75a8e700096cc3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:38 +0000
Subject: [PATCH 22/54] fix: adding a dimension, as expandable HDF5 files do,
 lost the unit and output format of variables

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 6fc190f..22c0ffd 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -926,7 +926,8 @@ class _hfarray(ndarray):
             out = out.repeat(len(dim.data), axis)
         dims = list(self.dims)
         dims.insert(axis, dim)
-        return self.__class__(out, dims=dims, copy=False)
+        return self.__class__(out, dims=dims, copy=False, unit=self.unit,
+                              outputformat=self.outputformat)
 
 
 def axis_handler(a, axis):
-- 
2.43.0


From 0c8b43a7204b26d2e966e9253b605b5c0744d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:57 +0000
Subject: [PATCH 23/54] fix: text appended to HDF5 files was cut to the width
 of the first record's text

---
 hftools/file_formats/hdf5/v_02.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 9f9dfa8..3e89e36 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -201,15 +201,19 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         if not np.can_cast(data.dtype, diskdata.dtype, "same_kind"):
             raise ValueError("Variable %r has wrong type, can not append" % uk)
         np.broadcast_to(data, diskdata.shape[:ax] + diskdata.shape[ax + 1:])
-        appends.append((diskdata, ax, data))
+        appends.append((diskdata, ax, data, db[uk].dtype))
 
     index = filehandle[expanddim.name]
     idx = index[-1] + 1
     expand_dataset(index, 1, 0)
     index[-1] = idx
 
-    for diskdata, ax, data in appends:
+    for diskdata, ax, data, dtype in appends:
         expand_dataset(diskdata, 1, ax)
         s = (slice(None),) * ax + (diskdata.shape[ax] - 1,)
         diskdata[s] = data
+        if dtype.kind == "U" and "dtype" in diskdata.attrs:
+            #Strings are read back with the width given by this attribute
+            dtype = np.promote_types(diskdata.attrs["dtype"], dtype)
+            diskdata.attrs["dtype"] = dtype.str
     filehandle.flush()  # reports write errors, closing the datasets does not
-- 
2.43.0


From 1336626c52cdfe2aaedf2c74e7aa9d3060f0a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:02 +0000
Subject: [PATCH 24/54] fix: read_data did not recognise MDIF files without VAR
 lines, as save_mdif writes them

---
 hftools/file_formats/mdif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 517255e..e469177 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -37,7 +37,8 @@ from hftools.file_formats.readbase import ManyOptional,\
 class MDIFError(FileFormatError):
     pass
 
-reg_mdif = re.compile(r"[\t ]*VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]")
+reg_mdif = re.compile(r"[\t ]*VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]|"
+                      r"[\t ]*%.*[(](integer|real|string|complex)[)]")
 
 
 def is_mdif(filename, rad):
-- 
2.43.0


From cc892c0a58dfdc0cfb5c6a876bba3355d422f245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:10 +0000
Subject: [PATCH 25/54] fix: SP-data columns vanished silently when a row was
 cut short

---
 hftools/file_formats/spdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 947ff9b..47d245f 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -118,7 +118,7 @@ class ReadSPFileFormat(ReadFileFormat):
             header = [x.strip() for x in header[0].strip().split("\t")]
             Nhead = len(header)
             #data = np.array(data)
-            if Nhead != len(data[0]):
+            if any(Nhead != len(row) for row in data):
                 msg = "Different number of header variables "\
                       "from data columns"
                 raise SPDataIOError(msg)
-- 
2.43.0


From 4e783966b712f8023b5d17695f71900900de6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:18 +0000
Subject: [PATCH 26/54] fix: path.makedirs(silent=True) no longer succeeds when
 a file is in the way

---
 hftools/_external/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/_external/path.py b/hftools/_external/path.py
index 0343d3d..0ac353a 100644
--- a/hftools/_external/path.py
+++ b/hftools/_external/path.py
@@ -611,7 +611,7 @@ class path(_base):
             try:
                 os.makedirs(self, mode)
             except OSError:
-                if not self.exists():
+                if not self.isdir():
                     raise
         else:
             os.makedirs(self, mode)
-- 
2.43.0


From 4274efc231f9ea1c534099246ea17f264c8da824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:33 +0000
Subject: [PATCH 27/54] fix: Config.write keeps units, time intervals, dates
 and paths so that they reload as what they were

---
 hftools/file_formats/config.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 40fff25..18d372f 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -226,8 +226,11 @@ def convert_or_none(x):
 
 
 def sivalue_representer(dumper, data):
-    if data.unit:
-        return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s%s' % (data, data.unit))
+    if data.unit == "m":
+        # A lone m is the prefix milli
+        return dumper.represent_scalar(u'!sivalue', u'%smm' % (data * 1e3))
+    elif data.unit:
+        return dumper.represent_scalar(u'!sivalue', u'%s%s' % (data, data.unit))
     else:
         return dumper.represent_scalar(u'tag:yaml.org,2002:float', u'%s' % (data))
 
@@ -249,19 +252,19 @@ def timeintervall_representer(dumper, data):
         out.append(u"%s hours" % hours)
     if minutes:
         out.append(u"%s minutes" % minutes)
-    if seconds:
-        out.append(u"%s seconds" % seconds)
+    if seconds or not out:
+        out.append(u"%f seconds" % seconds)
 
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str',
-                                   u" ".join(out))
+    return dumper.represent_scalar(u'!timeintervall', u" ".join(out))
 
 
 def timestamp_representer(dumper, data):
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % (data))
+    return dumper.represent_scalar(u'tag:yaml.org,2002:timestamp',
+                                   u'%s' % (data))
 
 
 def path_representer(dumper, p):
-    return dumper.represent_scalar(u'!str', u'%s' % p)
+    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % p)
 
 reg_si_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
                           r"[ \t]*(([dcmunpfakMGTPE])?(Hz|V|A|m|s|W|Ohm)?)?$")
-- 
2.43.0


From 9f6003edf8eed4dbb52bd4810c455b7d61a0ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:34 +0000
Subject: [PATCH 28/54] fix: append_hdf5 stores integers and times exactly or
 refuses the record, whatever their type

---
 hftools/file_formats/hdf5/v_02.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 3e89e36..0f343fe 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -181,6 +181,33 @@ def save_hdf5(db, h5file, expandable=False, expanddim=None, **kw):
     return d
 
 
+def cast_to_column(name, data, diskdata):
+    """Cast *data* to the type which *diskdata* is read back as"""
+    if "dtype" not in diskdata.attrs:
+        return data
+    dtype = np.dtype(cast_unicode(diskdata.attrs["dtype"]))
+    if "U" in (data.dtype.kind, dtype.kind):
+        if data.dtype.kind != dtype.kind:
+            raise ValueError("Variable %r has wrong type, "
+                             "can not append" % name)
+        return data  # Strings are stored with variable length
+    if not np.can_cast(data.dtype, dtype, "same_kind"):
+        raise ValueError("Variable %r has wrong type, can not append" % name)
+    cast = data.astype(dtype)
+    if dtype.kind in "iuM":
+        #Integers and times are stored exactly or not at all
+        old, new = np.asarray(data), np.asarray(cast)
+        same = old == new
+        if dtype.kind == "M":
+            same |= np.isnat(old) & np.isnat(new)
+        else:
+            same &= (old < 0) == (new < 0)
+        if not same.all():
+            raise ValueError("Variable %r has values which do not fit, "
+                             "can not append" % name)
+    return cast
+
+
 def append_hdf5(db, filehandle, expanddim=None, **kw):
     key = "hftools file version"
     if key not in filehandle.attrs or filehandle.attrs[key] != "0.2":
@@ -197,7 +224,7 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
             raise ValueError("Variable %r missing in db, can not append" % uk)
         diskdata = filehandle[k]
         ax = diskdata.maxshape.index(None)
-        data = cast_arrays_to_hdf5(db[uk])
+        data = cast_arrays_to_hdf5(cast_to_column(uk, db[uk], diskdata))
         if not np.can_cast(data.dtype, diskdata.dtype, "same_kind"):
             raise ValueError("Variable %r has wrong type, can not append" % uk)
         np.broadcast_to(data, diskdata.shape[:ax] + diskdata.shape[ax + 1:])
-- 
2.43.0


From ad85f528bb6541bda673083eed265512a1dc301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:12 +0000
Subject: [PATCH 29/54] fix: complex numbers keep their real part when the
 imaginary part is nan or inf

---
 hftools/file_formats/citi.py       |  2 +-
 hftools/file_formats/mdif.py       |  2 +-
 hftools/file_formats/readbase.py   |  7 +++++--
 hftools/file_formats/touchstone.py | 11 +++++++++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index aa24f73..7b58451 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -165,7 +165,7 @@ def handle_data(data, typ):
         out = []
         for rad in data:
             r, i = rad.strip().split(",")
-            out.append(float(r) + float(i) * 1j)
+            out.append(complex(float(r), float(i)))
         return out
     elif typ == "MAGANGLE":
         out = []
diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index e469177..9fcad31 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -103,7 +103,7 @@ class GetData(object):
     def get_complex(self, stream):
         dr = self.get_real(stream)
         di = self.get_real(stream)
-        d = dr + 1j * di
+        d = complex(dr, di)
         return d
 
 
diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 12af29f..2d8ab57 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -141,8 +141,11 @@ def make_cplx(dataset):
             if vname in dataset:
                 pass  # Already scalar data present
             else:
-                dataset[vname] = (dataset[alt["Re"][-1]] +
-                                  dataset[alt["Im"][-1]] * 1j)
+                #re + 1j * im is nan when im is nan or inf
+                re = dataset[alt["Re"][-1]]
+                value = hfarray(re, dtype=np.complex128)
+                value.imag = np.asarray(dataset[alt["Im"][-1]])
+                dataset[vname] = value
                 del dataset[alt["Re"][-1]]
                 del dataset[alt["Im"][-1]]
         elif "Mag" in alt and "Arg" in alt:
diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 99f87b1..a785556 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -21,8 +21,7 @@ import re
 import numpy as np
 from numpy import iscomplexobj, sqrt
 
-from hftools.math import dB_angle_to_complex, mag_angle_to_complex,\
-    re_im_to_complex
+from hftools.math import dB_angle_to_complex, mag_angle_to_complex
 from hftools.dataset import DataBlock, DimSweep, hfarray,\
     make_matrix, DimMatrix_i, DimMatrix_j
 from hftools.file_formats.common import Comments, db_iterator,\
@@ -147,6 +146,14 @@ def is_touchstone(filename, rad):
 
 #The info string is often capitalized and so can not distinguish between
 #upper and lowcase, thus we assume only prefixes >1
+def re_im_to_complex(re, im):
+    #re + 1j * im is nan when im is nan or inf
+    out = np.empty(re.shape, dtype=np.complex128)
+    out.real = re
+    out.imag = im
+    return out
+
+
 freqmultdict = dict(HZ=1, KHZ=1e3, MHZ=1e6, GHZ=1e9, THZ=1e12, PHZ=1e15)
 
 
-- 
2.43.0


From 12495581859b6fa2f4d8c84db844dc7a0a9101d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:37 +0000
Subject: [PATCH 30/54] fix: DataBlock.hyper gave data of unsorted sweeps the
 labels of other points

---
 hftools/dataset/dataset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index e4d2bba..f00c659 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -675,10 +675,13 @@ class DataBlock(object):
                 newname = "%s_index" % x
             else:
                 newname = x
-            dims.append(DimSweep(newname, stable_uniq(self[x]),
+            column = list(self[x])
+            values = stable_uniq(column)
+            dims.append(DimSweep(newname, values,
                                  unit=self[x].unit,
                                  outputformat=self[x].outputformat))
-            sortdata.append(self[x])
+            #The data has to be in the same order as the values of dims
+            sortdata.append([values.index(v) for v in column])
         dims = tuple(dims)
         dims_shape = tuple(len(x.data) for x in dims)
 
-- 
2.43.0


From e1962bbe60823f157bbf1c7dcc51f93395b050be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:15 +0000
Subject: [PATCH 31/54] fix: SP-data kept the unit of real columns only, not of
 complex and matrix variables

---
 hftools/file_formats/readbase.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 2d8ab57..778e4f2 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -145,6 +145,9 @@ def make_cplx(dataset):
                 re = dataset[alt["Re"][-1]]
                 value = hfarray(re, dtype=np.complex128)
                 value.imag = np.asarray(dataset[alt["Im"][-1]])
+                unit = alt["Re"][1]
+                if unit == alt["Im"][1] and reg_varunit.match(vname + unit):
+                    vname = vname + unit
                 dataset[vname] = value
                 del dataset[alt["Re"][-1]]
                 del dataset[alt["Im"][-1]]
@@ -176,7 +179,8 @@ def fix_unit(db, varname):
             db.replace_dim(olddim, newdim)
         else:
             db.rename(varname, vname)
-            db[vname] = db[vname] * mul
+            if mul != 1:
+                db[vname] = db[vname] * mul
             db[vname].unit = unit
 
 
@@ -388,11 +392,14 @@ class ReadFileFormat(object):
             shape = ex.shape
             x = np.empty(shape + (len(i_indices) * len(j_indices),),
                          dtype=ex.dtype)
+            units = set(block[elem].unit for elem in elems)
             for idx, elem in enumerate(elems):
                 x[..., idx] = block[elem]
                 del block[elem]
             x.shape = shape + (len(i_indices), len(j_indices),)
             block[vname] = make_matrix(x, dims=ex.dims)
+            if len(units) == 1:
+                block[vname].unit = units.pop()
 
     def _merge(self, blocks):
         if self.merge:
-- 
2.43.0


From 9757fb1e2217c992a0519b03afa1cfe4d08cfa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:25 +0000
Subject: [PATCH 32/54] fix: reading a matrix cut its elements to integers when
 the first element was whole numbers

---
 hftools/file_formats/readbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 778e4f2..4c114ef 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -390,8 +390,9 @@ class ReadFileFormat(object):
         for vname, (elems, i_indices, j_indices) in matrices.items():
             ex = block[elems[0]]
             shape = ex.shape
+            dtype = np.result_type(*[block[elem].dtype for elem in elems])
             x = np.empty(shape + (len(i_indices) * len(j_indices),),
-                         dtype=ex.dtype)
+                         dtype=dtype)
             units = set(block[elem].unit for elem in elems)
             for idx, elem in enumerate(elems):
                 x[..., idx] = block[elem]
-- 
2.43.0


From 690fcec896f5a37ef0068ee1953c4e851e2c8ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:31 +0000
Subject: [PATCH 33/54] fix: SP-data files with variables over different
 dimensions could not be read back

---
 hftools/file_formats/merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index b087d47..bd781d6 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -193,6 +193,9 @@ def merge_blocks(blocks, hyper=False, indexed=False):
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
             else:
                 ri = tuple()
+            if not ri and len(v) == 1:
+                db[vname] = v[0]
+                continue
             try:
                 value = hfarray(v, dims=ri + v[0].dims, unit=v[0].unit)
             except UnicodeError:
-- 
2.43.0


From 0230da14b4123ab1befd80a9f68fce9f80b649c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:14 +0000
Subject: [PATCH 34/54] fix: save_spdata silently dropped scalar variables

---
 hftools/file_formats/spdata.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 47d245f..fd2715f 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -24,10 +24,11 @@ from hftools.dataset import DataDict, DataBlock,  DimSweep, DimRep,\
     DimPartial, hfarray
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments, db_iterator,\
-    make_col_from_matrix, format_complex_header, format_elem
+    make_col_from_matrix, format_complex_header, format_elem,\
+    format_unit_header
 from hftools.file_formats.readbase import ReadFileFormat
 from hftools.file_formats.readbase import Token
-from hftools.utils import to_numeric
+from hftools.utils import is_numlike, to_numeric
 from hftools.py3compat import string_types
 
 class SPDataIOError(HFToolsIOError):
@@ -160,6 +161,13 @@ class ReadSPFileFormat(ReadFileFormat):
 def format_sp_block(sweepvars, header, fmts, columns, blockname, comments):
     for comment in comments.fullcomments:
         yield ["!" + comment.lstrip("!")]
+    known = Comments(comments.fullcomments).property
+    for name, value in comments.property.items():  # scalar variables
+        if not is_numlike(value) or np.iscomplexobj(value):
+            continue
+        text = value.outputformat % value
+        if name not in known or known[name] != float(text):
+            yield ["!%s: %s" % (format_unit_header(name, value), text)]
     for iname, fmt, value in sweepvars:
         yield [("!@%s=" + fmt) % (iname, value)]
     header, columns = make_col_from_matrix(header, columns, "%s%s%s")
-- 
2.43.0


From 4b175f91dc2194c0b0b38794d48d5a9ab7f7cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:26 +0000
Subject: [PATCH 35/54] fix: SP-data files with comments or scalars could not
 be read with hyper=True

---
 hftools/file_formats/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index bd781d6..5824fdf 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -193,7 +193,7 @@ def merge_blocks(blocks, hyper=False, indexed=False):
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
             else:
                 ri = tuple()
-            if not ri and len(v) == 1:
+            if len(v) == 1 and (not ri or len(ri[0].data) > 1):
                 db[vname] = v[0]
                 continue
             try:
-- 
2.43.0


From 1ef6c8609e84fd9f508fed3925d1feee47609a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:19 +0000
Subject: [PATCH 36/54] fix: DataBlock.hyper, and with it
 read_spdata(hyper=True), lost the comments

---
 hftools/dataset/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index f00c659..6d7e365 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -668,6 +668,7 @@ class DataBlock(object):
             replacedim = self.ivardata[replacedim]
         out = DataBlock()
         out.blockname = self.blockname
+        out.comments = self.comments
         dims = []
         sortdata = []
         for x in dimnames:
-- 
2.43.0


From b35148820f581259b8d047f1da311ec1311f8a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:12 +0000
Subject: [PATCH 37/54] fix: HDF5 files gave back dates and times of dimensions
 as integers

---
 hftools/file_formats/hdf5/v_02.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 0f343fe..4dadf77 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -41,6 +41,14 @@ def expand_dataset(dataset, expansion, axis):
     dataset.resize(dataset.shape[axis] + expansion, axis=axis)
 
 
+def getdimdata(dset):
+    data = dset[...]
+    dtype = np.dtype(cast_unicode(dset.attrs.get("dtype", data.dtype.str)))
+    if dtype.kind == "M":  # Stored as integers
+        data = data.astype(dtype)
+    return data
+
+
 def getvar(db, key):
     X = db[key]
 
@@ -49,7 +57,7 @@ def getvar(db, key):
         if len(x):
             dimcls = dimrep[cast_unicode(x[0].attrs.get("dimtype", "DimSweep"))]
             dim = dimcls(x[0].name.strip("/"),
-                         x[0][...],
+                         getdimdata(x[0]),
                          unit = x[0].attrs.get("unit", None))
             dims.append(dim)
 
@@ -61,7 +69,7 @@ def getvar(db, key):
                        dtype=dtype, outputformat=outputformat)
     else:
         dimcls = dimrep[X.attrs.get("dimtype", "DimSweep")]
-        dim = dimcls(X.name.strip("/"), X[...], unit=unit)
+        dim = dimcls(X.name.strip("/"), getdimdata(X), unit=unit)
         return hfarray(X.value, dims=(dim,), unit=unit,
                        dtype=dtype, outputformat=outputformat)
 
-- 
2.43.0


From de915bfb36c5ac587068ee45984506cd5d7d9bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:01 +0000
Subject: [PATCH 38/54] fix: HDF5 files lost dimensions that no variable has

---
 hftools/file_formats/hdf5/v_02.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 4dadf77..c0343f9 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -41,12 +41,14 @@ def expand_dataset(dataset, expansion, axis):
     dataset.resize(dataset.shape[axis] + expansion, axis=axis)
 
 
-def getdimdata(dset):
+def getdim(dset):
     data = dset[...]
     dtype = np.dtype(cast_unicode(dset.attrs.get("dtype", data.dtype.str)))
     if dtype.kind == "M":  # Stored as integers
         data = data.astype(dtype)
-    return data
+    dimcls = dimrep[cast_unicode(dset.attrs.get("dimtype", "DimSweep"))]
+    return dimcls(dset.name.strip("/"), data,
+                  unit=dset.attrs.get("unit", None))
 
 
 def getvar(db, key):
@@ -55,11 +57,7 @@ def getvar(db, key):
     dims = []
     for x in X.dims:
         if len(x):
-            dimcls = dimrep[cast_unicode(x[0].attrs.get("dimtype", "DimSweep"))]
-            dim = dimcls(x[0].name.strip("/"),
-                         getdimdata(x[0]),
-                         unit = x[0].attrs.get("unit", None))
-            dims.append(dim)
+            dims.append(getdim(x[0]))
 
     unit = X.attrs.get("unit", None)
     outputformat = X.attrs.get("outputformat", None)
@@ -68,9 +66,7 @@ def getvar(db, key):
         return hfarray(X.value, dims=dims, unit=unit,
                        dtype=dtype, outputformat=outputformat)
     else:
-        dimcls = dimrep[X.attrs.get("dimtype", "DimSweep")]
-        dim = dimcls(X.name.strip("/"), getdimdata(X), unit=unit)
-        return hfarray(X.value, dims=(dim,), unit=unit,
+        return hfarray(X.value, dims=(getdim(X),), unit=unit,
                        dtype=dtype, outputformat=outputformat)
 
 
@@ -114,6 +110,9 @@ def read_hdf5_handle(filehandle, **kw):
             uk = unescape_varname(k)
             if "dimtype" not in filehandle[k].attrs:
                 db[uk] = getvar(filehandle, k)
+        for k in filehandle:  # dimensions that no variable has
+            if "dimtype" in filehandle[k].attrs and k not in db:
+                db[k] = getdim(filehandle[k])
         db.comments = Comments()
         return db
     else:
-- 
2.43.0


From a25036a87f90cbb864b623b5a98d1d0753749b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:28 +0000
Subject: [PATCH 39/54] fix: read_hdf5 ignored the stored output format of
 dimensions

---
 hftools/file_formats/hdf5/v_02.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index c0343f9..3df1e05 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -48,7 +48,8 @@ def getdim(dset):
         data = data.astype(dtype)
     dimcls = dimrep[cast_unicode(dset.attrs.get("dimtype", "DimSweep"))]
     return dimcls(dset.name.strip("/"), data,
-                  unit=dset.attrs.get("unit", None))
+                  unit=dset.attrs.get("unit", None),
+                  outputformat=dset.attrs.get("outputformat", None))
 
 
 def getvar(db, key):
-- 
2.43.0


From 7f5e0ce034934237a0c15f9ceb32686f7df2f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:50 +0000
Subject: [PATCH 40/54] fix: save_hdf5 could not save variables over dimensions
 with / in their name

---
 hftools/file_formats/hdf5/v_02.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 3df1e05..3b2fdbd 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -47,7 +47,7 @@ def getdim(dset):
     if dtype.kind == "M":  # Stored as integers
         data = data.astype(dtype)
     dimcls = dimrep[cast_unicode(dset.attrs.get("dimtype", "DimSweep"))]
-    return dimcls(dset.name.strip("/"), data,
+    return dimcls(unescape_varname(dset.name.strip("/")), data,
                   unit=dset.attrs.get("unit", None),
                   outputformat=dset.attrs.get("outputformat", None))
 
@@ -112,8 +112,9 @@ def read_hdf5_handle(filehandle, **kw):
             if "dimtype" not in filehandle[k].attrs:
                 db[uk] = getvar(filehandle, k)
         for k in filehandle:  # dimensions that no variable has
-            if "dimtype" in filehandle[k].attrs and k not in db:
-                db[k] = getdim(filehandle[k])
+            uk = unescape_varname(k)
+            if "dimtype" in filehandle[k].attrs and uk not in db:
+                db[uk] = getdim(filehandle[k])
         db.comments = Comments()
         return db
     else:
@@ -169,8 +170,9 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
             pass
         dsets.append(create_dataset(filehandle, ek, v, expandable=expandable))
         for idx, dv in enumerate(v.dims):
-            filehandle[ek].dims.create_scale(filehandle[dv.name])
-            filehandle[ek].dims[idx].attach_scale(filehandle[dv.name])
+            dk = escape_varname(dv.name)
+            filehandle[ek].dims.create_scale(filehandle[dk])
+            filehandle[ek].dims[idx].attach_scale(filehandle[dk])
 
         filehandle[ek].attrs["arraytype"] = v.__class__.__name__
         if v.unit:
-- 
2.43.0


From 279236f30a243cf1d5393184f5a259840c8dcdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:58 +0000
Subject: [PATCH 41/54] fix: values of dimensions given as [1, 2.5] were saved
 without their decimals

---
 hftools/dataset/dim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index a89e916..bad2fc2 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -103,7 +103,8 @@ class DimBase(object):
     @property
     def outputformat(self):
         if self._outputformat is None:
-            if is_integer(self._data[0]):
+            if ((is_integer(self._data[0]) and
+                 all(is_integer(x) for x in self._data))):
                 return "%d"
             elif is_numlike(self._data[0]):
                 return "%.16e"
-- 
2.43.0


From 78d56cbdcd3b0e8fa15163551ac3bed08471781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:56 +0000
Subject: [PATCH 42/54] fix: negative and very long time intervals in a
 configuration did not load as written

---
 hftools/file_formats/config.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 18d372f..b324524 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -237,14 +237,10 @@ def sivalue_representer(dumper, data):
 
 
 def timeintervall_representer(dumper, data):
-    tremain = data.total_seconds()
-    days = tremain // (3600 * 24)
-    tremain = tremain - days * 3600 * 24
-    hours = tremain // (3600)
-    tremain = tremain - hours * 3600
-    minutes = tremain // 60
-    tremain = tremain - minutes * 60
-    seconds = tremain
+    days = data.days
+    hours, tremain = divmod(data.seconds, 3600)
+    minutes, tremain = divmod(tremain, 60)
+    seconds = tremain + data.microseconds * 1e-6
     out = []
     if days:
         out.append(u"%s days" % days)
@@ -280,7 +276,7 @@ regdatetimeshort = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}"
 regdate = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}")
 
 rec = re.compile
-timeintervallpattern = rec(r'^(([0-9]+([.][0-9]*)?)[ ]*(?:days|day))?[ ]*'
+timeintervallpattern = rec(r'^((-?[0-9]+([.][0-9]*)?)[ ]*(?:days|day))?[ ]*'
                            r'(([0-9]+([.][0-9]*)?)[ ]*(?:hour|hours))?[ ]*'
                            r'(([0-9]+([.][0-9]*)?)[ ]*(?:minutes|minute))?[ ]*'
                            r'(([0-9]+([.][0-9]*)?)[ ]*(?:second|seconds))?$')
-- 
2.43.0


From ec277a4bac26b881c23ca5adeceb9789b0f540b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:18 +0000
Subject: [PATCH 43/54] fix: SP-data columns of the same name lost their sweep
 dimension in files with one row

---
 hftools/file_formats/spdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index fd2715f..ee27e82 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -142,7 +142,7 @@ class ReadSPFileFormat(ReadFileFormat):
                 else:
                     repdim = DimRep("rep", output[x].shape[1])
                     db[x] = hfarray(output[x],
-                                    dims=(freq, repdim)).squeeze()
+                                    dims=(freq, repdim))
 
             remove = []
             for vname in db.comments.property:
-- 
2.43.0


From ea8f9dde34e7dc898d31d408a397d31d9b36ebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:18 +0000
Subject: [PATCH 44/54] fix: optimum reflection of Touchstone noise data is
 magnitude and angle in RI and DB files too

---
 hftools/file_formats/touchstone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index a785556..9322a17 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -208,7 +208,9 @@ def proc_info(info, f, data, fn, noisedata):
     if noisedata is not None:
         db.Rn = hfarray(noisedata[..., -1], dims=noisedims) * z0
         db.Fmin = 10 ** (hfarray(noisedata[..., 0], dims=noisedims) / 10)
-        db.Gopt = hfarray(convfunc[datatype](noisedata[:, 1], noisedata[:, 2]),
+        #Noise data is given as magnitude and angle in all formats
+        db.Gopt = hfarray(mag_angle_to_complex(noisedata[:, 1],
+                                               noisedata[:, 2]),
                           dims=noisedims)
     db.Z0 = hfarray(z0, unit="Ohm")
     return db
-- 
2.43.0


From 0a2af7fdcb3b2d22425a8199bd0acea5a00b359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:06 +0000
Subject: [PATCH 45/54] fix: MDIF files with vectors and no matrix could not be
 read

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 9fcad31..7671a1e 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -314,7 +314,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             a.sort()
             fmt = "%s[%%s]" % (matrix, )
             arrays = [np.array(db.vardata[fmt % i])[:, np.newaxis] for i, in a]
-            dims = db.vardata["%s[%s]" % (matrix, i)].dims
+            dims = db.vardata[fmt % a[0]].dims
             X = np.concatenate(arrays, 1)
             X.shape = X.shape[:1] + (len(a),)
             db.vardata[matrix] = make_vector(X, dims)
-- 
2.43.0


From 82873d3d53896ff416e873902e8ed9965f2fcaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:01 +0000
Subject: [PATCH 46/54] fix: save_all_figures_to_pdf closes its file when a
 figure cannot be saved

---
 hftools/plotting/helper.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 5fae5bc..543b1d7 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -678,10 +678,11 @@ def save_all_figures_to_pdf(filename, *kw):
     filename = hftools.path(filename)
     if filename.splitext()[1].lower() != ".pdf":
         raise ValueError("save_all_figures_to_pdf can only handle pdf files.")
-    pdffile = PdfPages(filename)
-    for fig in all_figures():
-        fig.savefig(pdffile, format="pdf")
-    pdffile.close()
+    with open(filename, "wb") as fil:
+        pdffile = PdfPages(fil)
+        for fig in all_figures():
+            fig.savefig(pdffile, format="pdf")
+        pdffile.close()
 
 
 def build_figlegend(axes=None):
-- 
2.43.0


From f77792bc071379ea82371e5914b2b6c323180bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:01 +0000
Subject: [PATCH 47/54] fix: savefig(facetransparent=True) works and puts the
 background back

---
 hftools/plotting/helper.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 543b1d7..2f76ffb 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -38,12 +38,15 @@ __all__ = ["is_in_ipython", "build_figlegend", "twin_axes_legend",
 
 
 def savefig(filename, *k, **kw):
-    if kw.get("facetransparent", False):
-        fig = pylab.gcf()
-        alpha = fig.patch.get_alpha()
-        fig.patch.set_alpha(0)
-    pylab.savefig(filename, *k, **kw)
-    if kw.get("facetransparent", False):
+    if not kw.pop("facetransparent", False):
+        pylab.savefig(filename, *k, **kw)
+        return
+    fig = pylab.gcf()
+    alpha = fig.patch.get_alpha()
+    fig.patch.set_alpha(0)
+    try:
+        pylab.savefig(filename, *k, **kw)
+    finally:
         fig.patch.set_alpha(alpha)
 
 
-- 
2.43.0


From cf1b667a2dc790e14f8eae740200b9918506885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:19 +0000
Subject: [PATCH 48/54] fix: a MAT-file that is no muwave measurement raises
 HFToolsIOError, not NameError

---
 hftools/file_formats/muwave_mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index 6ac9cd2..c5cee92 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -142,7 +142,7 @@ def build_data(data):
 def read_single_muwave_matlabdata(filename, **kw):
     data = sio.loadmat(filename)
     if "swp" not in data:
-        raise MuwaveIOError("%r is not a muwave matlab file"%filename)
+        raise HFToolsIOError("%r is not a muwave matlab file"%filename)
     swpdata = data["swp"][0, 0]["data"][0, :]
     out = []
     for d in swpdata:
-- 
2.43.0


From 766d360dfac77b774c52bf72890c516d73b65dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:51 +0000
Subject: [PATCH 49/54] fix: numeric measurement properties of muwave files
 read as numbers (zero too)

---
 hftools/file_formats/muwave_mat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index c5cee92..b161d77 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -55,8 +55,9 @@ def build_measmnt(data):
     props = q["props"][0, 0][0]
     values = q["values"][0, 0][0]
     for (k, v) in zip(props, values):
-        if v:
-            out[k[0]] = hfarray(make_real(v[0]))
+        if v.size:
+            v = v[0] if v[0].ndim == 0 else v[0][0]
+            out[k[0]] = hfarray(make_real(v))
         else:
             out[k[0]] = hfarray("")
         if out[k[0]].dtype.name.startswith("unicode"):
-- 
2.43.0


From 8571f2bc51083519d05ea68acf520ad6b19e69b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:23 +0000
Subject: [PATCH 50/54] fix: HDF5 files refuse variable names with a backslash,
 which read back as another name

---
 hftools/file_formats/hdf5/v_02.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 3b2fdbd..078bd93 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -30,6 +30,8 @@ dimrep = {"DimRep": DimRep,
 
 
 def escape_varname(x):
+    if "\\" in x:  # would read back as /
+        raise ValueError("\\ illegal character for variable name in hdf5 file")
     return x.replace("/", "\\")
 
 
-- 
2.43.0


From 3ac901efaa0af0d39d5d16214c6e81cea2b11125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:15 +0000
Subject: [PATCH 51/54] fix: HDF5 files of version 0.1 refuse variable names
 with a slash, which were lost or could not be read back

---
 hftools/file_formats/hdf5/v_01.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index cd60f30..42a0170 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -30,6 +30,9 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
         fil = h5py.File(h5file, mode)
     else:
         fil = h5file
+    for k in db.allvarnames:
+        if "/" in k:  # would become a group
+            raise ValueError("/ illegal character for variable name in hdf5 file")
     grp = fil.create_group(name)
     dsets = []  # h5py ignores write errors when an open dataset is dropped
     if db.blockname is None:
-- 
2.43.0


From ecc1c20f0ebc6539f384ee772eac8d767d9bca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:07 +0000
Subject: [PATCH 52/54] fix: 'in' for settings inside a list finds the
 enclosing settings, as lookup does

---
 hftools/file_formats/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index b324524..e49848f 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -74,7 +74,8 @@ class LexicalScopeDict(OrderedDict):
     def __contains__(self, key):
         if OrderedDict.__contains__(self, key):
             return True
-        return self.parent and key in self.parent
+        dct = find_next_dict(self)
+        return dct is not None and key in dct
 
     def update(self, other):
         for k, v in other.items():
-- 
2.43.0


From 4d48908ef570cba79817569a130cf267982f823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:36 +0000
Subject: [PATCH 53/54] fix: matrices of more than nine rows or columns keep
 their elements in CITI, SP-data and MDIF files

The names of the elements were ambiguous (x111) or not recognised when
read, such matrices came back in pieces or with elements lost. Indices of
several digits are now written x[1,11].
---
 hftools/dataset/__init__.py    |  2 +-
 hftools/dataset/dataset.py     | 20 ++++++++++++++++----
 hftools/file_formats/citi.py   | 10 ++++++----
 hftools/file_formats/common.py |  9 ++++++---
 hftools/file_formats/spdata.py |  7 ++++++-
 5 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/hftools/dataset/__init__.py b/hftools/dataset/__init__.py
index 8340311..30f9245 100644
--- a/hftools/dataset/__init__.py
+++ b/hftools/dataset/__init__.py
@@ -19,6 +19,6 @@ from hftools.dataset.arrayobj import make_matrix, hfarray, ismatrix,\
 
 from hftools.dataset.dataset import DataDict, DataBlock, \
     change_dim, DataBlockError, yield_dim_consistent_datablocks,\
-    convert_matrices_to_elements
+    convert_matrices_to_elements, matrix_element_format
 
 from hftools.dataset.comments import Comments
diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 6d7e365..f306f47 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -70,18 +70,30 @@ def yield_dim_consistent_datablocks(db):
             dimset.pop(longest[1:], None)
 
 
+def matrix_element_format(matrix):
+    """Format for names of the elements of *matrix*, x12 unless there are
+    indices of several digits, which need to be kept apart x[1,12].
+    """
+    if max(matrix.shape[-2:]) > 9:
+        return "%s[%s,%s]"
+    else:
+        return "%s%s%s"
+
+
 def convert_matrices_to_elements(db, formatelement=None):
     out = DataBlock()
     out.blockname = db.blockname
-    if formatelement is None:
-        def formatelement(varname, i, j):
-            return "%s%s%s" % (varname, i, j)
 
     for k, v in db.vardata.items():
         if ismatrix(v):
+            fmt = matrix_element_format(v)
             for i, _ in enumerate(v.dims[v.dims_index("i")].data, 1):
                 for j, _ in enumerate(v.dims[v.dims_index("j")].data, 1):
-                    out[formatelement(k, i, j)] = v[..., i - 1, j - 1]
+                    if formatelement is None:
+                        name = fmt % (k, i, j)
+                    else:
+                        name = formatelement(k, i, j)
+                    out[name] = v[..., i - 1, j - 1]
         else:
             out[k] = v
     return out
diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 7b58451..f039bb6 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -22,7 +22,8 @@ import re
 import numpy as np
 from numpy import array, iscomplexobj, pi
 import hftools.dataset
-from hftools.dataset import DataBlock, DimSweep, hfarray, _DimMatrix
+from hftools.dataset import DataBlock, DimSweep, hfarray, _DimMatrix,\
+    matrix_element_format
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments
 
@@ -43,8 +44,8 @@ reg_data = re.compile("[-+0-9eE.]+|nan|inf")
 
 
 class ReadCITIFileFormat(ReadFileFormat):
-    match_matrix_element_name = [re.compile("([A-Za-z_]+)[[]([0-9]),"
-                                            "([0-9])[]]$").match,
+    match_matrix_element_name = [re.compile("([A-Za-z_]+)[[]([0-9]+),"
+                                            "([0-9]+)[]]$").match,
                                  re.compile("([A-Za-z_]+)([0-9])"
                                             "([0-9])$").match]
 
@@ -206,9 +207,10 @@ def format_citi_block(inblock):
         if is_numlike(value):
             if hftools.dataset.ismatrix(value):
                 names = []
+                fmt = matrix_element_format(value)
                 for i in hfarray(value.dims[-2]):
                     for j in hfarray(value.dims[-1]):
-                        names.append("%s%s%s" % (name, i + 1, j + 1))
+                        names.append(fmt % (name, i + 1, j + 1))
             else:
                 names = [name]
             for n in names:
diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 0a9592e..cff9057 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -18,7 +18,8 @@ import itertools
 import time
 import datetime
 import numpy as np
-from hftools.dataset import hfarray, ismatrix, DataBlock
+from hftools.dataset import hfarray, ismatrix, DataBlock,\
+    matrix_element_format
 from hftools.constants import convert_with_unit,\
     string_number_with_unit_to_value
 from hftools.utils import to_numeric
@@ -313,18 +314,20 @@ def get_dims_names(*a):
     return tuple([x.name for x in a])
 
 
-def make_col_from_matrix(header, columns, fmt_matrix, fortranorder=False):
+def make_col_from_matrix(header, columns, fmt_matrix=None,
+                         fortranorder=False):
     fullheader = []
     fullcolumns = []
     for colname, col in zip(header, columns):
         if ismatrix(col):
+            fmt = fmt_matrix or matrix_element_format(col)
             for i in range(col.dims[-2].data.shape[0]):
                 for j in range(col.dims[-1].data.shape[0]):
                     if fortranorder:
                         I, J = j, i
                     else:
                         I, J = i, j
-                    fullheader.append(fmt_matrix % (colname, I + 1, J + 1))
+                    fullheader.append(fmt % (colname, I + 1, J + 1))
                     fullcolumns.append(col[..., I, J])
         else:
             fullheader.append(colname)
diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index ee27e82..b50c0e1 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -52,6 +52,11 @@ reg_header = re.compile("^[A-Za-z_]")
 
 
 class ReadSPFileFormat(ReadFileFormat):
+    match_matrix_element_name = [re.compile("([A-Za-z_]+)[[]([0-9]+),"
+                                            "([0-9]+)[]]$").match,
+                                 re.compile("([A-Za-z_]+)([0-9])"
+                                            "([0-9])$").match]
+
     def tokenize(self, stream):
         """Split stream of lines in sp-data format into
         stream of tagged lines.
@@ -170,7 +175,7 @@ def format_sp_block(sweepvars, header, fmts, columns, blockname, comments):
             yield ["!%s: %s" % (format_unit_header(name, value), text)]
     for iname, fmt, value in sweepvars:
         yield [("!@%s=" + fmt) % (iname, value)]
-    header, columns = make_col_from_matrix(header, columns, "%s%s%s")
+    header, columns = make_col_from_matrix(header, columns)
     outheader = format_complex_header(header, columns,
                                       "%s", "Re(%s)", "Im(%s)",
                                       padheader=True)
-- 
2.43.0


From 1d238a23ba5a442fd919c64265b5729763304bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:36 +0000
Subject: [PATCH 54/54] fix: noise frequencies of a Touchstone file are read as
 they are stated

Noise frequencies that differ from those of the network parameters by less
than 1e-5 were replaced by the latter.
---
 hftools/file_formats/touchstone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 9322a17..9df509a 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -195,7 +195,7 @@ def proc_info(info, f, data, fn, noisedata):
         out.shape = (out.shape[0], N, N)
 
     dims = (DimSweep("freq", f, unit="Hz"), )
-    if fn is not None and len(f) == len(fn) and np.allclose(f, fn):
+    if fn is not None and np.array_equal(f, fn):
         noisedims = dims
     elif fn is None:
         noisedims = None
-- 
2.43.0

