From fc45d79c7f5ec0dba4a6dffed47066b93f8b6649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 01/46] fix: mask_reset gives an all True mask also with NaN in
 the data, and a bool mask with no data

---
 channelpack/pack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index f61ae42..75f7a8a 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -316,10 +316,10 @@ class ChannelPack(object):
         """
 
         if not self.data:
-            self.mask = np.array([])
+            self.mask = np.array([], dtype=bool)
         else:
             lowest = sorted(self.data)[0]
-            self.mask = self.data[lowest] == self.data[lowest]
+            self.mask = np.full(len(self.data[lowest]), True)
 
     def duration(self, duration, samplerate=1, mindur=True):
         """Require each true part to be at least duration long.
@@ -389,7 +389,8 @@ class ChannelPack(object):
 
         """
 
-        result = np.array(tuple(datautils.startstop_bool(startb, stopb)))
+        result = np.array(tuple(datautils.startstop_bool(startb, stopb)),
+                          dtype=bool)
         if apply:
             self.mask &= result
         return result
-- 
2.43.0


From 861dd2f6adac426835d8e833e228cf3bd3c5dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:04 +0000
Subject: [PATCH 02/46] fix: assigning data resets the mask also for NpDict,
 and packs never share their dicts

---
 channelpack/pack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 75f7a8a..da1ad43 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -212,12 +212,12 @@ class ChannelPack(object):
 
         """
         self.FALLBACK_PREFIX = 'ch'
+        self.mindur = None
         self.data = NpDict(data or {})
         self.filenames = []
         self.fn = ''             # Possible file name
         self.names = IntKeyDict(names or {})
         self.nof = None
-        self.mindur = None
         self.mask_reset()       # set self.mask
 
     def __setattr__(self, name, value):
@@ -239,10 +239,10 @@ class ChannelPack(object):
             object.__setattr__(self, name, value)
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
-        elif name == 'data' and not isinstance(value, NpDict):
+        elif name == 'data':
             object.__setattr__(self, name, NpDict(value))
             self.mask_reset()
-        elif name == 'names' and not isinstance(value, IntKeyDict):
+        elif name == 'names':
             object.__setattr__(self, name, IntKeyDict(value))
         elif name == 'fn':
             if not isinstance(value, str):
-- 
2.43.0


From 4e8c3b13430710fff032e2ef5aa0c84276866126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:14 +0000
Subject: [PATCH 03/46] fix: append_pack leaves the pack unaltered when it
 raises

---
 channelpack/pack.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index da1ad43..0fc8e87 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -288,19 +288,22 @@ class ChannelPack(object):
 
         """
 
+        # check all before altering anything in this pack
+        if self.data and other.data:
+            if not set(self.data.keys()) == set(other.data.keys()):
+                raise ValueError('Data dicts set of keys not equal')
+        if self.names and other.names:
+            if not set(self.names.keys()) == set(other.names.keys()):
+                raise ValueError('names dicts set of keys not equal')
+
         if not self.data:
             self.data = other.data
         elif other.data:
-            if not set(self.data.keys()) == set(other.data.keys()):
-                raise ValueError('Data dicts set of keys not equal')
-            for key in other.data:
-                self.data[key] = np.append(self.data[key], other.data[key])
+            self.data.update({key: np.append(self.data[key], other.data[key])
+                              for key in other.data})
 
         if not self.names:
             self.names = other.names
-        elif other.names:
-            if not set(self.names.keys()) == set(other.names.keys()):
-                raise ValueError('names dicts set of keys not equal')
 
         self.filenames.extend(other.filenames)
 
-- 
2.43.0


From 87cfe4f9eaefa52b905a94e0eade0519308a72f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 04/46] fix: masking never alters an array assigned to mask by
 the caller

---
 channelpack/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 0fc8e87..e692419 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -228,7 +228,8 @@ class ChannelPack(object):
         elif name == 'mask' and not isinstance(value, np.ndarray):
             raise TypeError('Expected a numpy array')
         elif name == 'mask':
-            object.__setattr__(self, name, value)
+            # keep a copy, the mask is altered in place by this pack
+            object.__setattr__(self, name, value.copy())
             self._cached_slicelist = self._slicelist()
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
-- 
2.43.0


From 6c7f4c2289f5e25f5c93636d2009fb81958a9843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:57 +0000
Subject: [PATCH 05/46] fix: everything after the fallback prefix must be a
 number

---
 channelpack/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index e692419..f4805b6 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -554,7 +554,7 @@ class ChannelPack(object):
         # not in data, not a good name in names, last chance is a
         # fallback string
 
-        prefix_rx = self.FALLBACK_PREFIX + r'(\d+)'
+        prefix_rx = self.FALLBACK_PREFIX + r'(\d+)\Z'
         m = re.match(prefix_rx, ch)
 
         if m:
-- 
2.43.0


From 7eb0c312deee949e0d3e666cf9b126aa0b2cd276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 06/46] fix: records with fallback names take data by key

---
 channelpack/pack.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index f4805b6..c005534 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -506,18 +506,19 @@ class ChannelPack(object):
 
         """
 
-        names = [self.names[key] for key in sorted(self.names)]
+        keys = sorted(self.names)
+        names = [self.names[key] for key in keys]
         if fallback:
-            names = [self.FALLBACK_PREFIX + str(key) for key in
-                     sorted(self.data)]
+            keys = sorted(self.data)
+            names = [self.FALLBACK_PREFIX + str(key) for key in keys]
 
         try:
             Record = namedtuple('Record', names)
         except ValueError:      # bad names
             raise ValueError('Includes invalid names: {}'.format(names))
 
-        for record in map(Record._make, zip(*[self(name, part=part, nof=nof)
-                                              for name in names])):
+        for record in map(Record._make, zip(*[self(key, part=part, nof=nof)
+                                              for key in keys])):
             yield record
 
     def _datakey(self, ch):
-- 
2.43.0


From 4962f9cad58555fdd9cf8cff682fe25603a76311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:15 +0000
Subject: [PATCH 07/46] fix: int key dicts accept pairs from iterators, and
 check keys from any mapping and from |=

---
 channelpack/pack.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index c005534..dc9b740 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -27,27 +27,18 @@ class IntKeyDict(dict):
 
     def update(self, *args, **kwargs):
 
-        # only concern about keys being integers, let parent handle
-        # other dict violations
-        if args and isinstance(args[0], dict):
-            for key in args[0]:
-                if not isinstance(key, int):
-                    raise TypeError(self._key_error_message(key))
-
-        elif args and (hasattr(args[0], '__iter__') and not
-                       isinstance(args[0], str)):
-            for seq in args[0]:
-                if hasattr(seq, '__len__') and len(seq) > 2:
-                    break       # not our problem
-                elif (hasattr(seq, '__getitem__') and not
-                      isinstance(seq[0], int)):
-                    raise TypeError(self._key_error_message(seq[0]))
-
-        for key, value in kwargs.items():
+        # only concern about keys being integers, let dict handle other
+        # dict violations, (and consume a possible iterator only once)
+        new = dict(*args, **kwargs)
+        for key in new:
             if not isinstance(key, int):
                 raise TypeError(self._key_error_message(key))
 
-        super(IntKeyDict, self).update(*args, **kwargs)
+        super(IntKeyDict, self).update(new)
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
 
     def setdefault(self, key, value=None):
         if not isinstance(key, int):
-- 
2.43.0


From 0f37002c6a12125d1bbe4b8aee5883fe47f51e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:25 +0000
Subject: [PATCH 08/46] fix: setdefault of the int key dicts return the value

---
 channelpack/pack.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index dc9b740..97ed036 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -42,8 +42,8 @@ class IntKeyDict(dict):
 
     def setdefault(self, key, value=None):
         if not isinstance(key, int):
-            raise TypeError(self._key_error_message)
-        super(IntKeyDict, self).setdefault(key, value)
+            raise TypeError(self._key_error_message(key))
+        return super(IntKeyDict, self).setdefault(key, value)
 
     def _key_error_message(self, key):
         return 'Only integer keys accepted, got: {}'.format(repr(key))
@@ -112,9 +112,11 @@ class NpDict(IntKeyDict):
         super(NpDict, self).update(*proxyargs, **proxykwargs)
 
     def setdefault(self, key, value=None):
+        if key in self:
+            return self[key]
         array = np.array(value, copy=False)
         self._check_raise_ndim(array, value)
-        super(NpDict, self).setdefault(key, array)  # return? FIXME
+        return super(NpDict, self).setdefault(key, array)
 
     def _check_raise_ndim(self, array, value):
         """Check array for ndim == 1 and raise error if fail.
-- 
2.43.0


From c81f8ad85e65726d30dec17e8a17fb42f4a175a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:34 +0000
Subject: [PATCH 09/46] fix: duration does not truncate the required number of
 elements

---
 channelpack/pack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 97ed036..c605736 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -339,7 +339,11 @@ class ChannelPack(object):
             The possibly altered mask.
         """
 
-        req_duration = int(duration * samplerate)
+        req_duration = duration * samplerate
+        # the product can be slightly off the integer it should be, like
+        # 0.29 * 100 (28.999999999999996)
+        if abs(req_duration - round(req_duration)) < 1e-9 * abs(req_duration):
+            req_duration = round(req_duration)
 
         for sc in self._cached_slicelist:
             part_duration = sc.stop - sc.start
-- 
2.43.0


From 5c1e11b13763c6dcf2a5c7fc5dcc43b9c1bba0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:11 +0000
Subject: [PATCH 10/46] fix: textpack usecols in any order or with duplicates

---
 channelpack/readtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index f593276..6fcbae9 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -343,7 +343,8 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
     """
 
     if usecols is not None:
-        usecols = (usecols,) if type(usecols) is int else usecols
+        # sorted, columns are read in the order of the file
+        usecols = (usecols,) if type(usecols) is int else sorted(set(usecols))
 
     if names:
         usecols = sorted(names)
-- 
2.43.0


From 84de9aa753b07e9ac15bc697c87f60058b53fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 11/46] fix: lazy_textpack reads a stream from the position it
 was given in

---
 channelpack/readtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 6fcbae9..a120c66 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -261,6 +261,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
     encoding = textkwargs.get('encoding', locale.getpreferredencoding())
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
+        startpos = fo.tell()
         if context.bytehint:
             derived = preparse([fo.readline().decode(encoding)
                                 for i in range(parselines)])
@@ -272,7 +273,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
                     derived['converters'][key] = _floatit_bytes
         else:
             derived = preparse([fo.readline() for i in range(parselines)])
-        fo.seek(0)
+        fo.seek(startpos)
         derived.update(textkwargs)
 
         if 'usecols' in textkwargs and 'names' not in textkwargs:
-- 
2.43.0


From c995c6c533cbfa0dba08672fdf0169e261b2a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:29 +0000
Subject: [PATCH 12/46] fix: streams with a file descriptor for a name have no
 file name

---
 channelpack/readtext.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index a120c66..c827ee9 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -214,10 +214,9 @@ class contextopen(object):
             self.name = fname
         else:
             self.fo = fname
-            try:
-                self.name = fname.name
-            except AttributeError:
-                pass
+            name = getattr(fname, 'name', '')
+            if isinstance(name, str):  # can be a file descriptor
+                self.name = name
 
         tell = self.fo.tell()
         self.bytehint = type(self.fo.read(1)) is bytes
-- 
2.43.0


From 1fa8e3d776dba65e30da003b6dc3c62b314787e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:39 +0000
Subject: [PATCH 13/46] fix: close the file opened when its first character can
 not be read

---
 channelpack/readtext.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index c827ee9..e3e1c65 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -218,9 +218,13 @@ class contextopen(object):
             if isinstance(name, str):  # can be a file descriptor
                 self.name = name
 
-        tell = self.fo.tell()
-        self.bytehint = type(self.fo.read(1)) is bytes
-        self.fo.seek(tell)
+        try:
+            tell = self.fo.tell()
+            self.bytehint = type(self.fo.read(1)) is bytes
+            self.fo.seek(tell)
+        except Exception:
+            self.__exit__(None, None, None)
+            raise
 
     def __enter__(self):
         return self
-- 
2.43.0


From 5168cf3b17f39cd8a81cdbb2705b13c532b074d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:48 +0000
Subject: [PATCH 14/46] fix: textpack debug line number, and same result as
 with no debug

---
 channelpack/readtext.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index e3e1c65..c9d3fc7 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -4,7 +4,7 @@ Funtions for reading data from text files.
 """
 from __future__ import print_function
 import re
-from collections import namedtuple, defaultdict
+from collections import namedtuple
 import io
 import locale
 import string
@@ -385,25 +385,23 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
         # Then debug is on. Do the exact same thing but loop over the
         # tuples so we can count lines and provide meaningful debug
         # output prior to an exception.
-        columndata = defaultdict(list)
+        rows = []
+        debugdict['linum'] = -1  # no data line read yet
         try:
             for i, linetuple in enumerate(linetupler):
                 debugdict['linum'] = i
-                if usecols is not None:
-                    for column, value in zip(usecols, linetuple):
-                        columndata[column].append(value)
-                else:
-                    for column, value in enumerate(linetuple):
-                        columndata[column].append(value)
+                rows.append(linetuple)
         except Exception:
             for i, converter in enumerate(debugdict['funcs']):
                 print('converter func field', i, converter)
             print('last successful parse 1-based line number:',
-                  debugdict['linum'] + skiprows + 1)
+                  debugdict['linum'] + skiprows + bool(hasnames) + 1)
             print('Traceback follows...')
             raise
 
-        return columndata
+        if usecols is not None:
+            return {col: data for col, data in zip(usecols, zip(*rows))}
+        return {col: data for col, data in enumerate(zip(*rows))}
 
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
-- 
2.43.0


From d901b586a83f791a28e5e807071a76ea0b840010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:58 +0000
Subject: [PATCH 15/46] fix: dbfpack with names and deleted records

---
 channelpack/dbf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 9cd7e25..6edae71 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -127,6 +127,7 @@ def dbfrecords(f, names):
         for field in selfields:
             f.seek(refaddr + field.seekme)
             record.append(struct.unpack(field.fmt, f.read(field.fmtsiz))[0])
+        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
 
         if record[0] != b' ':
             continue                        # deleted record
@@ -159,7 +160,6 @@ def dbfrecords(f, names):
             else:
                 value = value.decode('ascii')  # type = 'C' or other type
             result.append(value)
-        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
         yield result
 
 
-- 
2.43.0


From d27f8bd7a29e993912fa80498a7ccc8223675d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:06 +0000
Subject: [PATCH 16/46] fix: dbfpack with names reads a stream from the
 position it was given in

---
 channelpack/dbf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 6edae71..0965074 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -191,9 +191,10 @@ def dbfpack(dbf, names=None):
 
     with contextopen(dbf, 'rb') as context:
         fo = context.fo
+        startpos = fo.tell()
         sniffnames = dbfreader(fo)
         allnames = next(sniffnames)
-        fo.seek(0)
+        fo.seek(startpos)
         dbfrecs = dbfrecords(fo, names)
         next(dbfrecs)
         next(dbfrecs)
-- 
2.43.0


From e7024dea167c12561a6d44912eb2320f4ced274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 17/46] fix: dbf records start where the header ends, there can
 be padding after the field descriptors

---
 channelpack/dbf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 0965074..5d39682 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -40,6 +40,7 @@ def dbfreader(f):
 
     terminator = f.read(1)
     assert terminator == b'\r'
+    f.read(lenheader - 33 - 32 * numfields)  # records start after the header
 
     fields.insert(0, ('DeletionFlag', 'C', 1, 0))
     fmt = ''.join(['%ds' % fieldinfo[2] for fieldinfo in fields])
@@ -120,6 +121,7 @@ def dbfrecords(f, names):
 
     terminator = f.read(1)
     assert terminator == b'\r'
+    f.read(lenheader - 33 - 32 * numfields)  # records start after the header
 
     for i in range(numrec):
         refaddr = f.tell()
-- 
2.43.0


From 67a725bd60e737b40d32e021128d78a93a969a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 18/46] fix: find the sheet relationships and comments parts of
 xlsx files by their actual names

---
 channelpack/xlrd/xlsx.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index a1ca2dd..a48ae10 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -528,7 +528,8 @@ class X12Sheet(X12General):
             if self.verbosity >= 2:
                 self.dumpout('Id=%r Type=%r Target=%r', rid, reltype, target)
             self.relid2reltype[rid] = reltype
-            self.relid2path[rid] = normpath(join('xl/worksheets', target))
+            path = normpath(join('xl/worksheets', target))
+            self.relid2path[rid] = X12Book.convert_filename(path).lstrip('/')
 
     def process_comments_stream(self, stream):
         root = ET.parse(stream).getroot()
@@ -813,7 +814,7 @@ def open_workbook_2007_xml(zf,
 
         rels_fname = 'xl/worksheets/_rels/%s.rels' % fname.rsplit('/', 1)[-1]
         if rels_fname in component_names:
-            zfrels = zf.open(rels_fname)
+            zfrels = zf.open(component_names[rels_fname])
             x12sheet.process_rels(zfrels)
             del zfrels
 
@@ -821,7 +822,7 @@ def open_workbook_2007_xml(zf,
             if reltype == 'comments':
                 comments_fname = x12sheet.relid2path.get(relid)
                 if comments_fname and comments_fname in component_names:
-                    comments_stream = zf.open(comments_fname)
+                    comments_stream = zf.open(component_names[comments_fname])
                     x12sheet.process_comments_stream(comments_stream)
                     del comments_stream
 
-- 
2.43.0


From 1dde79b0de9de5e869b51f5720e192ac79bd5b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:14 +0000
Subject: [PATCH 19/46] fix: a formula string cell with no value in xlsx files
 is an empty text, not None

---
 channelpack/xlrd/xlsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index a48ae10..774882b 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -686,7 +686,7 @@ class X12Sheet(X12General):
                         bad_child_tag(child_tag)
                 # assert tvalue is not None and formula is not None
                 # Yuk. Fails with file created by gnumeric -- no tvalue!
-                self.sheet.put_cell(rowx, colx, XL_CELL_TEXT, tvalue, xf_index)
+                self.sheet.put_cell(rowx, colx, XL_CELL_TEXT, tvalue or '', xf_index)
             elif cell_type == "b":
                 # b = boolean
                 # <v> child contains "0" or "1"
-- 
2.43.0


From d5d150bffe077cfb7c92b06c2cc6c4a733f234a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:11 +0000
Subject: [PATCH 20/46] fix: pack data accepts any mapping, as a dict does

---
 channelpack/pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index c605736..018ea37 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -72,9 +72,9 @@ class NpDict(IntKeyDict):
         proxyargs = []
         proxykwargs = {}
 
-        if args and isinstance(args[0], dict):
+        if args and hasattr(args[0], 'keys'):  # a mapping
             proxydict = {}
-            for key in args[0]:
+            for key in args[0].keys():
                 array = np.array(args[0][key], copy=False)
                 self._check_raise_ndim(array, args[0][key])
                 proxydict[key] = array
-- 
2.43.0


From 80ac9747ea6094f9acbc2cc224db0572fe98ba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:18 +0000
Subject: [PATCH 21/46] fix: setdefault of pack data raises on a non-integer
 key equal to a key

---
 channelpack/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 018ea37..29f4dd1 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -113,7 +113,7 @@ class NpDict(IntKeyDict):
 
     def setdefault(self, key, value=None):
         if key in self:
-            return self[key]
+            return super(NpDict, self).setdefault(key)
         array = np.array(value, copy=False)
         self._check_raise_ndim(array, value)
         return super(NpDict, self).setdefault(key, array)
-- 
2.43.0


From 6bac430a46133abd999ffef8b4bee1a412ba08be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:19 +0000
Subject: [PATCH 22/46] fix: skip lines of nothing but tabs also when any white
 space is the delimiter

---
 channelpack/readtext.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index c9d3fc7..6f20396 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -461,13 +461,13 @@ def linetuples(fo, bytehint=False, delimiter=None, usecols=None,
     def maybenan(s):
         return float(s) if s else np.nan
 
-    # don't strip off tabs or some possible white space delimiter
+    # don't strip off some possible white space delimiter
     if not bytehint:
-        stripchars = string.whitespace.replace(delimiter or '\t', '')
+        stripchars = string.whitespace.replace(delimiter or '', '')
     elif bytehint:
         whites = string.whitespace.encode('ascii')
         # assuming delimiter is bytes or None
-        stripchars = whites.replace(delimiter or b'\t', b'')
+        stripchars = whites.replace(delimiter or b'', b'')
 
     if hasnames:
         fieldnames = [field.strip() for field in
-- 
2.43.0


From 470f058223cb43ab15ee39e5753049fe91f87b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:56 +0000
Subject: [PATCH 23/46] fix: a line of names with digits is not data to
 lazy_textpack

---
 channelpack/readtext.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 6f20396..8b43742 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -145,13 +145,22 @@ def preparse(lines, firstfieldrx=r'\w'):
             return {}
 
     # Data starts before line where number of different seps is not 1
-    # anymore, checking backwards. Or where there is no numbers found
-    # with one column of data.
+    # anymore, checking backwards. Or where the sep is another one, (like
+    # in a line of names with digits). Or where there is something else
+    # than a number with one column of data.
+    seps = [tup[1] for tup in (dresults if flag == 'd' else cresults)]
+    numrx = DNUMRX if flag == 'd' else CNUMRX
     for i, triplet in enumerate(reversed(validcounts)):
         if triplet.septypcnt != exp_septypcnt:
             break
         elif triplet.septypcnt == 0 and triplet.numcnt == 0:
             break
+        elif (triplet.septypcnt == 1
+              and seps[-1 - i][0].strip() != seps[-1][0].strip()):
+            break
+        elif (triplet.septypcnt == 0
+              and re.sub(numrx, '', lines[len(seps) - 1 - i]).strip()):
+            break
     else:
         i = len(validcounts)  # there was no seps != 1, assume first line
 
-- 
2.43.0


From d9736f2607a16f29af758214c3d8f3fb18901fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:15 +0000
Subject: [PATCH 24/46] fix: read xls formula strings with characters outside
 the BMP

The count in a STRING record is of UTF-16 code units, so a surrogate pair
counts as two, and it might be split by a CONTINUE record. Before BIFF8 it
is of bytes.
---
 channelpack/xlrd/sheet.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index a831398..ea11f18 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1515,18 +1515,25 @@ class Sheet(BaseObject):
         offset = lenlen
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
+        # The count is of bytes before BIFF8, of UTF-16 code units from then
+        # on. A surrogate pair counts as two and might be split by a CONTINUE,
+        # so decode when all of it is there.
         nchars_found = 0
-        result = UNICODE_LITERAL("")
+        raw = b""
         while 1:
+            chunk = data[offset:]
             if bv >= 80:
-                flag = BYTES_ORD(data[offset]) & 1
-                enc = ("latin_1", "utf_16_le")[flag]
-                offset += 1
-            chunk = unicode(data[offset:], enc)
-            result += chunk
-            nchars_found += len(chunk)
+                compressed = not BYTES_ORD(chunk[0]) & 1
+                chunk = chunk[1:]
+                if compressed:
+                    chunk = unicode(chunk, "latin_1").encode("utf_16_le")
+                enc = "utf_16_le"
+                nchars_found += len(chunk) // 2
+            else:
+                nchars_found += len(chunk)
+            raw += chunk
             if nchars_found == nchars_expected:
-                return result
+                return unicode(raw, enc)
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
                     % (nchars_expected, nchars_found))
-- 
2.43.0


From b3bbb4af137685f073fdd89ce39d5d79cded750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:09 +0000
Subject: [PATCH 25/46] fix: read xls shared strings split in surrogate pairs
 and phonetic data

A pair of surrogates can be split by a CONTINUE record, and phonetic data
can span more than one of them.
---
 channelpack/xlrd/book.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 4851236..291d4b4 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1438,7 +1438,7 @@ def unpack_SST_table(datatab, nstrings):
         if options & 0x04: # phonetic
             phosz = local_unpack('<i', data[pos:pos+4])[0]
             pos += 4
-        accstrg = UNICODE_LITERAL('')
+        accraw = b'' # UTF-16, as a surrogate pair might be split by a CONTINUE
         charsgot = 0
         while 1:
             charsneed = nchars - charsgot
@@ -1447,22 +1447,14 @@ def unpack_SST_table(datatab, nstrings):
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
                 rawstrg = data[pos:pos+2*charsavail]
                 # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                try:
-                    accstrg += unicode(rawstrg, "utf_16_le")
-                except:
-                    # print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                    # Probable cause: dodgy data e.g. unfinished surrogate pair.
-                    # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
-                    # unichr(i) for i in range(0x100000)
-                    # so this will include 0xD800 etc
-                    raise
+                accraw += rawstrg
                 pos += 2*charsavail
             else:
                 # Note: this is COMPRESSED (not ASCII!) encoding!!!
                 charsavail = local_min(datalen - pos, charsneed)
                 rawstrg = data[pos:pos+charsavail]
                 # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                accstrg += unicode(rawstrg, latin_1)
+                accraw += unicode(rawstrg, latin_1).encode("utf_16_le")
                 pos += charsavail
             charsgot += charsavail
             if charsgot == nchars:
@@ -1472,6 +1464,11 @@ def unpack_SST_table(datatab, nstrings):
             datalen = len(data)
             options = local_BYTES_ORD(data[0])
             pos = 1
+        # Failure here has probable cause: dodgy data e.g. unfinished surrogate pair.
+        # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
+        # unichr(i) for i in range(0x100000)
+        # so this will include 0xD800 etc
+        accstrg = unicode(accraw, "utf_16_le")
 
         if rtcount:
             runs = []
@@ -1486,7 +1483,7 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
+        while pos >= datalen:
             # adjust to correct position in next record
             pos = pos - datalen
             datainx += 1
@@ -1495,5 +1492,6 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
+                break
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From e1d4833a60f0db3e59d3459bb6cde33a9c281870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:55 +0000
Subject: [PATCH 26/46] fix: let an xls compound file have more than 250
 directory entries

The number of a directory entry is stored for each of its sectors, and it
did not fit.
---
 channelpack/xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 412a89e..23275e8 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -120,7 +120,7 @@ class CompDoc(object):
                 % (len(mem), sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('l', [0]) * mem_data_secs
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From 20f4a7b1cdb4fe0c8c614c25642fc2672afc5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:55 +0000
Subject: [PATCH 27/46] fix: read xls directories of any shape without
 exhausting the stack

Directory entries linked like a list, or in a loop, made it a RecursionError.
---
 channelpack/xlrd/compdoc.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 23275e8..2ebd400 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -62,13 +62,28 @@ class DirNode(object):
             print("timestamp info", self.tsinfo, file=self.logfile)
 
 def _build_family_tree(dirlist, parent_DID, child_DID):
-    if child_DID < 0: return
-    _build_family_tree(dirlist, parent_DID, dirlist[child_DID].left_DID)
-    dirlist[parent_DID].children.append(child_DID)
-    dirlist[child_DID].parent = parent_DID
-    _build_family_tree(dirlist, parent_DID, dirlist[child_DID].right_DID)
-    if dirlist[child_DID].etype == 1: # storage
-        _build_family_tree(dirlist, child_DID, dirlist[child_DID].root_DID)
+    # No recursion, the siblings might be linked like a list. Entries seen
+    # already are left alone, or a loop of entries would have no end.
+    seen = set()
+    storages = [(parent_DID, child_DID)]
+    while storages:
+        parent_DID, child_DID = storages.pop()
+        path = []
+        while path or child_DID >= 0:
+            if child_DID >= 0:
+                if child_DID in seen:
+                    child_DID = -1
+                    continue
+                seen.add(child_DID)
+                path.append(child_DID)
+                child_DID = dirlist[child_DID].left_DID
+            else:
+                child_DID = path.pop()
+                dirlist[parent_DID].children.append(child_DID)
+                dirlist[child_DID].parent = parent_DID
+                if dirlist[child_DID].etype == 1: # storage
+                    storages.append((child_DID, dirlist[child_DID].root_DID))
+                child_DID = dirlist[child_DID].right_DID
 
 
 class CompDoc(object):
-- 
2.43.0


From 7d4456ccca60f67ae2d01ccc7e683d2dd3ea0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:53 +0000
Subject: [PATCH 28/46] fix: find the sectors of xls compound files with 4096
 byte sectors

The header occupies a whole sector, the first sector comes after it.
---
 channelpack/xlrd/compdoc.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 2ebd400..1fbdcb9 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -126,13 +126,15 @@ class CompDoc(object):
             SSAT_first_sec_sid, SSAT_tot_secs,
             MSATX_first_sec_sid, MSATX_tot_secs,
         ) = unpack('<iiiiiiii', mem[44:76])
-        mem_data_len = len(mem) - 512
+        # The header takes a whole sector if sectors are bigger than 512 bytes
+        self.base = base = max(512, sec_size)
+        mem_data_len = len(mem) - base
         mem_data_secs, left_over = divmod(mem_data_len, sec_size)
         if left_over:
             #### raise CompDocError("Not a whole number of sectors")
             mem_data_secs += 1
-            print("WARNING *** file size (%d) not 512 + multiple of sector size (%d)"
-                % (len(mem), sec_size), file=logfile)
+            print("WARNING *** file size (%d) not %d + multiple of sector size (%d)"
+                % (len(mem), base, sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
         seen = self.seen = array.array('l', [0]) * mem_data_secs
@@ -180,7 +182,7 @@ class CompDoc(object):
                 actual_MSATX_sectors += 1
                 if DEBUG and actual_MSATX_sectors > expected_MSATX_sectors:
                     print("[1]===>>>", mem_data_secs, nent, SAT_sectors_reqd, expected_MSATX_sectors, actual_MSATX_sectors, file=logfile)
-                offset = 512 + sec_size * sid
+                offset = base + sec_size * sid
                 MSAT.extend(unpack(fmt, mem[offset:offset+sec_size]))
                 sid = MSAT.pop() # last sector id is sid of next sector in the chain
 
@@ -218,7 +220,7 @@ class CompDoc(object):
             actual_SAT_sectors += 1
             if DEBUG and actual_SAT_sectors > SAT_sectors_reqd:
                 print("[3]===>>>", mem_data_secs, nent, SAT_sectors_reqd, expected_MSATX_sectors, actual_MSATX_sectors, actual_SAT_sectors, msid, file=logfile)
-            offset = 512 + sec_size * msid
+            offset = base + sec_size * msid
             self.SAT.extend(unpack(fmt, mem[offset:offset+sec_size]))
 
         if DEBUG:
@@ -240,7 +242,7 @@ class CompDoc(object):
         # === build the directory ===
         #
         dbytes = self._get_stream(
-            self.mem, 512, self.SAT, self.sec_size, self.dir_first_sec_sid,
+            self.mem, base, self.SAT, self.sec_size, self.dir_first_sec_sid,
             name="directory", seen_id=3)
         dirlist = []
         did = -1
@@ -267,7 +269,7 @@ class CompDoc(object):
             self.SSCS = ""
         else:
             self.SSCS = self._get_stream(
-                self.mem, 512, self.SAT, sec_size, sscs_dir.first_SID,
+                self.mem, base, self.SAT, sec_size, sscs_dir.first_SID,
                 sscs_dir.tot_size, name="SSCS", seen_id=4)
         # if DEBUG: print >> logfile, "SSCS", repr(self.SSCS)
         #
@@ -284,7 +286,7 @@ class CompDoc(object):
                     raise CompDocError("SSAT corruption: seen[%d] == %d" % (sid, seen[sid]))
                 seen[sid] = 5
                 nsecs -= 1
-                start_pos = 512 + sid * sec_size
+                start_pos = base + sid * sec_size
                 news = list(unpack(fmt, mem[start_pos:start_pos+sec_size]))
                 self.SSAT.extend(news)
                 sid = self.SAT[sid]
@@ -379,7 +381,7 @@ class CompDoc(object):
             return None
         if d.tot_size >= self.min_size_std_stream:
             return self._get_stream(
-                self.mem, 512, self.SAT, self.sec_size, d.first_SID,
+                self.mem, self.base, self.SAT, self.sec_size, d.first_SID,
                 d.tot_size, name=qname, seen_id=d.DID+6)
         else:
             return self._get_stream(
@@ -411,7 +413,7 @@ class CompDoc(object):
                 % (qname, d.tot_size, self.mem_data_len))
         if d.tot_size >= self.min_size_std_stream:
             result = self._locate_stream(
-                self.mem, 512, self.SAT, self.sec_size, d.first_SID,
+                self.mem, self.base, self.SAT, self.sec_size, d.first_SID,
                 d.tot_size, qname, d.DID+6)
             if self.DEBUG:
                 print("\nseen", file=self.logfile)
-- 
2.43.0


From 5aed8c192f4b4ebd86ce64676116626c0d67f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:01 +0000
Subject: [PATCH 29/46] fix: close xlsx files when read, whatever happens

The zip file was left open until garbage collected, that is as long as the
book or an exception raised was referred to.
---
 channelpack/xlrd/__init__.py | 62 +++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/channelpack/xlrd/__init__.py b/channelpack/xlrd/__init__.py
index 5153bf2..5ba4c97 100644
--- a/channelpack/xlrd/__init__.py
+++ b/channelpack/xlrd/__init__.py
@@ -112,37 +112,39 @@ def open_workbook(filename=None,
             peek = f.read(peeksz)
     if peek == b"PK\x03\x04": # a ZIP file
         if file_contents:
-            zf = zipfile.ZipFile(timemachine.BYTES_IO(file_contents))
+            stream = timemachine.BYTES_IO(file_contents)
         else:
-            zf = zipfile.ZipFile(filename)
-
-        # Workaround for some third party files that use forward slashes and
-        # lower case names. We map the expected name in lowercase to the
-        # actual filename in the zip container.
-        component_names = dict([(X12Book.convert_filename(name), name)
-                                for name in zf.namelist()])
-
-        if verbosity:
-            logfile.write('ZIP component_names:\n')
-            pprint.pprint(component_names, logfile)
-        if 'xl/workbook.xml' in component_names:
-            from . import xlsx
-            bk = xlsx.open_workbook_2007_xml(
-                zf,
-                component_names,
-                logfile=logfile,
-                verbosity=verbosity,
-                use_mmap=use_mmap,
-                formatting_info=formatting_info,
-                on_demand=on_demand,
-                ragged_rows=ragged_rows,
-            )
-            return bk
-        if 'xl/workbook.bin' in component_names:
-            raise XLRDError('Excel 2007 xlsb file; not supported')
-        if 'content.xml' in component_names:
-            raise XLRDError('Openoffice.org ODS file; not supported')
-        raise XLRDError('ZIP file contents not a known type of workbook')
+            stream = open(filename, "rb")
+        with stream:
+            zf = zipfile.ZipFile(stream)
+
+            # Workaround for some third party files that use forward slashes and
+            # lower case names. We map the expected name in lowercase to the
+            # actual filename in the zip container.
+            component_names = dict([(X12Book.convert_filename(name), name)
+                                    for name in zf.namelist()])
+
+            if verbosity:
+                logfile.write('ZIP component_names:\n')
+                pprint.pprint(component_names, logfile)
+            if 'xl/workbook.xml' in component_names:
+                from . import xlsx
+                bk = xlsx.open_workbook_2007_xml(
+                    zf,
+                    component_names,
+                    logfile=logfile,
+                    verbosity=verbosity,
+                    use_mmap=use_mmap,
+                    formatting_info=formatting_info,
+                    on_demand=on_demand,
+                    ragged_rows=ragged_rows,
+                )
+                return bk
+            if 'xl/workbook.bin' in component_names:
+                raise XLRDError('Excel 2007 xlsb file; not supported')
+            if 'content.xml' in component_names:
+                raise XLRDError('Openoffice.org ODS file; not supported')
+            raise XLRDError('ZIP file contents not a known type of workbook')
 
     from . import book
     bk = book.open_workbook_xls(
-- 
2.43.0


From 6be711ea85628b6fc1901755412c0c7a1f2bd2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:11 +0000
Subject: [PATCH 30/46] fix: raise for a loop of short sectors in xls compound
 files

Reading them had no end, until memory ran out.
---
 channelpack/xlrd/compdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 1fbdcb9..b8a476f 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -323,6 +323,8 @@ class CompDoc(object):
         else:
             todo = size
             while s >= 0:
+                if len(sectors) == len(sat):
+                    raise CompDocError("%s corruption: sectors linked in a loop" % name)
                 if seen_id is not None:
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
-- 
2.43.0


From 2d369d94d3b5765d383ac8d9d6d50a6125ef6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:49 +0000
Subject: [PATCH 31/46] fix: let no bad merged range extend the sheet beyond
 its limits

A damaged range could ask for billions of cells, exhausting memory.
---
 channelpack/xlrd/sheet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index ea11f18..a97e5ff 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -608,6 +608,7 @@ class Sheet(BaseObject):
                     fprintf(self.logfile,
                         "*** WARNING: sheet #%d (%r), MERGEDCELLS bad range %r\n",
                         self.number, self.name, crange)
+                    continue
                 if rhi > nr: nr = rhi
                 if chi > nc: nc = chi
             if nc > self.ncols:
-- 
2.43.0


From 6343a3ec5740fd2a5c8769ea5761d965ad06be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:21 +0000
Subject: [PATCH 32/46] fix: never go backwards in an xls string table

A damaged size of phonetic data could make reading go on for ever.
---
 channelpack/xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 291d4b4..b3d4059 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1436,7 +1436,7 @@ def unpack_SST_table(datatab, nstrings):
             rtcount = local_unpack('<H', data[pos:pos+2])[0]
             pos += 2
         if options & 0x04: # phonetic
-            phosz = local_unpack('<i', data[pos:pos+4])[0]
+            phosz = local_unpack('<I', data[pos:pos+4])[0]
             pos += 4
         accraw = b'' # UTF-16, as a surrogate pair might be split by a CONTINUE
         charsgot = 0
-- 
2.43.0


From f21f66d6f9c3d43e87e422b10a192ea3f20ce11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 33/46] fix: flags of BIFF 2 WINDOW2 records were always set

---
 channelpack/xlrd/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index a97e5ff..33ba009 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1488,8 +1488,8 @@ class Sheet(BaseObject):
                 elif rc == XL_WINDOW2_B2: # BIFF 2 only
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
-                    for attr, char in zip(attr_names, data[0:5]):
-                        setattr(self, attr, int(char != b'\0'))
+                    for attr, flag in zip(attr_names, bytearray(data[0:5])):
+                        setattr(self, attr, int(flag != 0))
                     (
                         self.first_visible_rowx, self.first_visible_colx,
                         self.automatic_grid_line_colour,
-- 
2.43.0


From c325c827d37fcbe5f351579c8343eba8e5c46982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 34/46] fix: url hyperlink with characters outside the BMP
 failed to load

---
 channelpack/xlrd/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index 33ba009..6376f8e 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1791,7 +1791,8 @@ class Sheet(BaseObject):
                 endpos = h.url_or_path.find('\x00')
                 if DEBUG: print("endpos=%d" % endpos, file=self.logfile)
                 h.url_or_path = h.url_or_path[:endpos]
-                true_nbytes = 2 * (endpos + 1)
+                # a character outside the BMP takes 4 bytes
+                true_nbytes = len(h.url_or_path.encode('UTF-16le')) + 2
                 offset += true_nbytes
                 extra_nbytes = nbytes - true_nbytes
                 extra_data = data[offset:offset + extra_nbytes]
-- 
2.43.0


From 57efa576deee340178a1a19251dcc35bb9182c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 35/46] fix: text of note with surrogate pair split by a
 CONTINUE failed to load

---
 channelpack/xlrd/sheet.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index 6376f8e..f9723fb 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -2036,7 +2036,9 @@ class Sheet(BaseObject):
             (15, 0x8000, 'secret_edit'),
         ))
         totchars = 0
-        o.text = UNICODE_LITERAL('')
+        # a surrogate pair might be split by a CONTINUE, so decode when all of
+        # the text is there
+        raw = b''
         while totchars < cchText:
             rc2, data2_len, data2 = self.book.get_record_parts()
             assert rc2 == XL_CONTINUE
@@ -2047,10 +2049,11 @@ class Sheet(BaseObject):
             if nb:
                 assert nchars % 2 == 0
                 nchars //= 2
-            utext, endpos = unpack_unicode_update_pos(data2, 0, known_len=nchars)
-            assert endpos == data2_len
-            o.text += utext
+                raw += data2[1:]
+            else:
+                raw += unicode(data2[1:], 'latin_1').encode('utf_16_le')
             totchars += nchars
+        o.text = unicode(raw, 'utf_16_le')
         o.rich_text_runlist = []
         totruns = 0
         while totruns < cbRuns: # counts of BYTES, not runs
-- 
2.43.0


From b0c68bfefaf0e62bea7d2031aceaa82fee43d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 36/46] fix: size of tArray tokens in formulas

---
 channelpack/xlrd/formula.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index e26639b..c4b1126 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -97,11 +97,11 @@ listsep = ',' #### probably should depend on locale
 # -1 means variable
 # -2 means this opcode not implemented in this version.
 # Which N to use? Depends on biff_version; see szdict.
-sztab0 = [-2, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 8, 4, 2, 2, 3, 9, 8, 2, 3, 8, 4, 7, 5, 5, 5, 2, 4, 7, 4, 7, 2, 2, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
-sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
-sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
-sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
-sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
+sztab0 = [-2, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 8, 4, 2, 2, 3, 9, 7, 2, 3, 8, 4, 7, 5, 5, 5, 2, 4, 7, 4, 7, 2, 2, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
+sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 8, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
+sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 8, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
+sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
+sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
 
 szdict = {
     20 : sztab0,
-- 
2.43.0


From e11723618334f71ce511c4d8e691699c511f2be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 37/46] fix: functions called without arguments dropped the
 whole stack

---
 channelpack/xlrd/formula.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index c4b1126..43c3fa6 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -1085,7 +1085,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                args = stack[len(stack) - nargs:] # nargs may be 0
+                argtext = listsep.join(arg.text for arg in args)
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1118,7 +1119,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                                 res.kind, res.value = oNUM, 0
                             else:
                                 res.kind, res.value = chosen.kind, chosen.value
-                del stack[-nargs:]
+                del stack[len(stack) - nargs:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
-- 
2.43.0


From fa0faf65b30682897795c06f9995aae1f97b4717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 38/46] fix: range operator on an error in formula of a name

---
 channelpack/xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 43c3fa6..4f20b9f 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -953,7 +953,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
-                    res = oERR
+                    res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
                     if aop.value is not None and bop.value is not None:
                         assert len(aop.value) == 1
-- 
2.43.0


From 3b98f47fa5d953b01ea406c5317975f0708fddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 39/46] fix: unary operators on other than numbers in formula
 of a name

---
 channelpack/xlrd/formula.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 4f20b9f..4f176a1 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -817,7 +817,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             sym2,
         ])
         if val is not None:
-            val = func(val)
+            # nothing is known about operands of other kinds
+            val = func(val) if aop.kind in (oNUM, oBOOL) else None
         stk.append(Operand(result_kind, val, rank, otext))
 
     def not_in_name_formula(op_arg, oname_arg):
-- 
2.43.0


From 4b286513b2d865af29700881dee11814f0b741f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 40/46] fix: complex numbers as values of names

---
 channelpack/xlrd/formula.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 4f176a1..1f6e1de 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -11,6 +11,7 @@ Module for parsing/evaluating Microsoft Excel formulas.
 from __future__ import print_function
 
 import copy
+import math
 import operator as opr
 from struct import unpack
 
@@ -700,7 +701,7 @@ tLT, tLE, tEQ, tGE, tGT, tNE = range(0x09, 0x0F)
 def nop(x):
     return x
 
-def _opr_pow(x, y): return x ** y
+def _opr_pow(x, y): return math.pow(x, y)
 
 def _opr_lt(x, y): return x <  y
 def _opr_le(x, y): return x <= y
-- 
2.43.0


From b84945153ac01f43babece7a8efc188f6fc1e2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 41/46] fix: name referring to a name local to a macro sheet

---
 channelpack/xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 1f6e1de..6e28b00 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -1145,7 +1145,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert len(tgtobj.stack) == 1
                 res = copy.deepcopy(tgtobj.stack[0])
             res.rank = LEAF_RANK
-            if tgtobj.scope == -1:
+            if tgtobj.scope < 0: # global, or not a worksheet
                 res.text = tgtobj.name
             else:
                 res.text = "%s!%s" \
@@ -1324,7 +1324,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     assert len(tgtobj.stack) == 1
                     res = copy.deepcopy(tgtobj.stack[0])
                 res.rank = LEAF_RANK
-                if tgtobj.scope == -1:
+                if tgtobj.scope < 0: # global, or not a worksheet
                     res.text = tgtobj.name
                 else:
                     res.text = "%s!%s" \
-- 
2.43.0


From 34692dcbf39e99d5a915000bb939a46b4e4e1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 42/46] fix: cell and area2d of a name without value raised
 TypeError

---
 channelpack/xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index b3d4059..14e3d04 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -227,7 +227,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1:
+            if kind == oREF and value is not None and len(value) == 1:
                 ref3d = value[0]
                 if (0 <= ref3d.shtxlo == ref3d.shtxhi - 1 and
                         ref3d.rowxlo == ref3d.rowxhi - 1 and
@@ -264,7 +264,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1: # only 1 reference
+            if kind == oREF and value is not None and len(value) == 1: # only 1 reference
                 ref3d = value[0]
                 if 0 <= ref3d.shtxlo == ref3d.shtxhi - 1: # only 1 usable sheet
                     sh = self.book.sheet_by_index(ref3d.shtxlo)
-- 
2.43.0


From 014ab8af532c3f92654e3672180d1289f7561aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 43/46] fix: formula of a name that cannot be evaluated
 prevented opening the workbook

---
 channelpack/xlrd/book.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 14e3d04..28c1ba6 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1067,7 +1067,20 @@ class Book(BaseObject):
             # Parse the formula ...
             if nobj.macro or nobj.binary: continue
             if nobj.evaluated: continue
-            evaluate_name_formula(self, nobj, namex, blah=blah)
+            try:
+                evaluate_name_formula(self, nobj, namex, blah=blah)
+            except Exception as e:
+                # Not a reason to refuse the whole workbook; the result of the
+                # name is None.
+                if self.verbosity:
+                    fprintf(f, "WARNING *** Name %r not evaluated: %s: %s\n",
+                        nobj.name, type(e).__name__, e)
+                nobj.stack = []
+                nobj.result = None
+                nobj.any_rel = 0
+                nobj.any_err = 1
+                nobj.any_external = 0
+                nobj.evaluated = 1
 
         if self.verbosity >= 2:
             print("---------- name object dump ----------", file=f)
-- 
2.43.0


From 28f380cdbc0500e1267f7c45c17c305859ca9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:10 +0000
Subject: [PATCH 44/46] fix: tell style and cell formats of Excel 2.0 files
 apart

The formats made up for them had the parent style index of styles and
cells swapped, and is_style was never set.
---
 channelpack/xlrd/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index f9723fb..f8d2d3f 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1691,7 +1691,8 @@ class Sheet(BaseObject):
             bg.fill_pattern = 0
         bg.background_colour_index = 9 # white
         bg.pattern_colour_index = 8 # black
-        xf.parent_style_index = (0x0FFF, 0)[style]
+        xf.is_style = int(style)
+        xf.parent_style_index = (0, 0x0FFF)[style]
         xf.alignment.vert_align = 2 # bottom
         xf.alignment.rotation = 0
         attr_stems = [
-- 
2.43.0


From 828aad86f37157849b56e7b08402ba7959492ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:16 +0000
Subject: [PATCH 45/46] fix: user name of Excel 2 to 4 files with no other text
 is text, not bytes

---
 channelpack/xlrd/book.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 28c1ba6..a4942b9 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -754,6 +754,9 @@ class Book(BaseObject):
         self._sheet_visibility = [0] # one sheet, visible
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheets()
+        if self.raw_user_name:
+            # no other text nor a CODEPAGE record in the file
+            self.derive_encoding()
 
     def handle_boundsheet(self, data):
         # DEBUG = 1
-- 
2.43.0


From 993fac7ef575140ca54cb37eed5b0b002629f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:57 +0000
Subject: [PATCH 46/46] fix: names of columns beyond ZZ

---
 channelpack/xlrd/formula.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 6e28b00..2eea6d1 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -2103,11 +2103,10 @@ def cellnamerel(rowx, colx, rowxrel, colxrel, browx=None, bcolx=None, r1c1=0):
 def colname(colx):
     """Utility function: ``7`` => ``'H'``, ``27`` => ``'AB'``"""
     alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
-    if colx <= 25:
+    xdiv26, xmod26 = divmod(colx, 26)
+    if xdiv26 == 0:
         return alphabet[colx]
-    else:
-        xdiv26, xmod26 = divmod(colx, 26)
-        return alphabet[xdiv26 - 1] + alphabet[xmod26]
+    return colname(xdiv26 - 1) + alphabet[xmod26]
 
 def rangename2d(rlo, rhi, clo, chi, r1c1=0):
     """ ``(5, 20, 7, 10)`` => ``'$H$6:$J$20'`` """
-- 
2.43.0

