From c780cac60e72905380ae66d391eba7546a25af52 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 001/149] fix: read FAST text output with a single time step as
 a 2D table

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 94ee22c..800042e 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -187,7 +187,7 @@ def load_ascii_output(filename):
         # Data, up to end of file or empty line (potential comment line at the end)
 #         data = np.array([l.strip().split() for l in takewhile(lambda x: len(x.strip())>0, f.readlines())]).astype(np.float)
         # ---
-        data = np.loadtxt(f, comments=('This')) # Adding "This" for the Hydro Out files..
+        data = np.loadtxt(f, comments=('This'), ndmin=2) # Adding "This" for the Hydro Out files..
         return data, info
 
 
-- 
2.43.0


From d3a59bd22f6805a33b689f968154071acd51ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 002/149] fix: unbuffered reading of uncompressed FAST binary
 output

---
 weio/fast_output_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 800042e..9c7dcf4 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -277,8 +277,8 @@ def load_binary_output(filename, use_buffer=True):
             TimeIncr = fread(fid, 1, 'float64')  #;           % The time increment, REAL(8)
 
         if FileID == FileFmtID_NoCompressWithoutTime:
-            ColScl = np.ones ((NumOutChans, 1)) # The channel slopes for scaling, REAL(4)
-            ColOff = np.zeros((NumOutChans, 1)) # The channel offsets for scaling, REAL(4)
+            ColScl = np.ones (NumOutChans) # The channel slopes for scaling, REAL(4)
+            ColOff = np.zeros(NumOutChans) # The channel offsets for scaling, REAL(4)
         else:
             ColScl = fread(fid, NumOutChans, 'float32')  # The channel slopes for scaling, REAL(4)
             ColOff = fread(fid, NumOutChans, 'float32')  # The channel offsets for scaling, REAL(4)
-- 
2.43.0


From ae34e1bf42d49e37e4619a3a70eaec2817f91ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 003/149] fix: FAST binary output of columns without units

---
 weio/fast_output_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 9c7dcf4..bac0120 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -366,7 +366,7 @@ def writeDataFrame(df, filename, binary=True):
     for c in df.columns:
         c     = c.strip()
         name  = c
-        units = ''
+        unit  = ''
         if c[-1]==']':
             chars=['[',']']
         elif c[-1]==')':
@@ -410,7 +410,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     # Data sanitization
     chanNames = list(chanNames)
     channels  = np.asarray(channels)
-    if chanUnits[0][0]!='(':
+    if not chanUnits[0].startswith('('):
         chanUnits = ['('+u+')' for u in chanUnits] # units surrounded by parenthesis to match OpenFAST convention
 
     nT, nChannelsWithTime = np.shape(channels)
-- 
2.43.0


From 3599f1a06b5a72321458e5cb4fb287cd4855d41c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 004/149] fix: writeDataFrame must not silently ignore a
 request for ascii output

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index bac0120..2a75bb6 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -388,7 +388,7 @@ def writeDataFrame(df, filename, binary=True):
     if binary:
         writeBinary(filename, channels, chanNames, chanUnits)
     else:
-        NotImplementedError()
+        raise NotImplementedError()
 
 
 def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
-- 
2.43.0


From 7dbed34d0d41bbab97497095b8ca07eb07bee482 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:31:02 +0000
Subject: [PATCH 005/149] fix: write FAST binary output with channel names
 longer than 10 characters

---
 weio/fast_output_file.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 2a75bb6..cf11944 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -444,8 +444,13 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     ColScl  = np.single(int16Rng/ranges)
     ColOff  = np.single(int16Min - np.single(mins)*ColScl)
     
+    # Names or units longer than 10 characters require the layout that stores the length
+    lenName = max([10]+[len(s) for s in chanNames]+[len(s) for s in chanUnits])
+    if fileID == 2 and lenName > 10:
+        fileID = 4
+
     #Just available for fileID 
-    if fileID != 2:
+    if fileID not in [2, 4]:
         print("current version just works with FileID = 2")
 
     else:
@@ -460,6 +465,8 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
 
             # Write header informations
             fid.write(struct.pack('@h',fileID))
+            if fileID == 4:
+                fid.write(struct.pack('@h',lenName))
             fid.write(struct.pack('@i',nChannels))
             fid.write(struct.pack('@i',nT))
             fid.write(struct.pack('@d',timeStart))
@@ -472,13 +479,13 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
 
             # Write channel names
             for chan in chanNames:
-                ordchan = [ord(char) for char in chan]+ [32]*(10-len(chan))
-                fid.write(struct.pack('@10B', *ordchan))
+                ordchan = [ord(char) for char in chan]+ [32]*(lenName-len(chan))
+                fid.write(struct.pack('@{}B'.format(lenName), *ordchan))
 
             # Write channel units
             for unit in chanUnits:
-                ordunit = [ord(char) for char in unit]+ [32]*(10-len(unit))
-                fid.write(struct.pack('@10B', *ordunit))
+                ordunit = [ord(char) for char in unit]+ [32]*(lenName-len(unit))
+                fid.write(struct.pack('@{}B'.format(lenName), *ordunit))
 
             # Pack data
             packedData=np.zeros((nT, nChannels), dtype=np.int16)
-- 
2.43.0


From 70f6ffa872023828b1490a37be42444e556fd660 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:33:39 +0000
Subject: [PATCH 006/149] fix: TurbSim boxes with uniform or low turbulence
 components are corrupted when written

---
 weio/turbsim_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 5cee26a..7394b83 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -145,8 +145,9 @@ class TurbSimFile(File):
             else:
                 scl[k] = intrng / (all_max-all_min)
             off[k]    = intmin - scl[k] * all_min
-            out[k]    = (ts[k]    * scl[k] + off[k]).astype(np.int16)
-            outTwr[k] = (tsTwr[k] * scl[k] + off[k]).astype(np.int16)
+            # NOTE: off is in single precision, so values may land next to (or outside of) the integer expected
+            out[k]    = np.clip(np.round(ts[k]    * scl[k] + off[k]), intmin, intmin+intrng).astype(np.int16)
+            outTwr[k] = np.clip(np.round(tsTwr[k] * scl[k] + off[k]), intmin, intmin+intrng).astype(np.int16)
         z0 = self['z'][0]
         dz = self['z'][1]- self['z'][0]
         dy = self['y'][1]- self['y'][0]
-- 
2.43.0


From 087d36f5247c8ab207d27317ae9d262cef4c54a6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 007/149] fix: TurbSim queries with removeMean must not modify
 the wind field

The lines and planes extracted are views of the field, so that subtracting
the mean in place altered the data (also through toDataFrame).
---
 weio/turbsim_file.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 7394b83..529f702 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -249,9 +249,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,iz0]
         w = ts['u'][2,:,iy0,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u-np.mean(u)
+            v = v-np.mean(v)
+            w = w-np.mean(w)
         return u, v, w
 
     def _latline(ts, ix0=None, iz0=None, removeMean=False):
@@ -265,9 +265,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,:,iz0]
         w = ts['u'][2,ix0,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u-np.mean(u)
+            v = v-np.mean(v)
+            w = w-np.mean(w)
         return u, v, w
 
     def _vertline(ts, ix0=None, iy0=None, removeMean=False):
@@ -281,9 +281,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,iy0,:]
         w = ts['u'][2,ix0,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u-np.mean(u)
+            v = v-np.mean(v)
+            w = w-np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
@@ -302,9 +302,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,:,iz0]
         w = ts['u'][2,:,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u-np.mean(u)
+            v = v-np.mean(v)
+            w = w-np.mean(w)
         return u, v, w
 
     def verticalPlane(ts, y=None, iy0=None, removeMean=False):
@@ -320,9 +320,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,:]
         w = ts['u'][2,:,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u-np.mean(u)
+            v = v-np.mean(v)
+            w = w-np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
-- 
2.43.0


From 6ebc0301c6e30220b9072500492925393c2fbbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:42:42 +0000
Subject: [PATCH 008/149] fix: writing a FAST input file adds a line to empty
 output lists and single-file lists

The additional blank line becomes an element of the list when the file is
read again, and the file grows at each write.
---
 weio/fast_input_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 51a6868..47780da 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -714,8 +714,8 @@ class FASTInputFileBase(File):
                 s+='\n'.join('\t'.join('{:15.8e}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_FIL:
                 #f.write('{} {} {}\n'.format(d['value'][0],d['tabDetect'],d['descr']))
-                s+='{} {} {}\n'.format(d['value'][0],d['label'],d['descr']) # TODO?
-                s+='\n'.join(fil for fil in d['value'][1:])
+                s+='{} {} {}'.format(d['value'][0],d['label'],d['descr']) # TODO?
+                s+=''.join('\n'+fil for fil in d['value'][1:])
             elif d['tabType']==TABTYPE_NUM_BEAMDYN:
                 # TODO use dedicated sub-class
                 data = d['value']
-- 
2.43.0


From dbb8e7d4e3b102eb1538409dd1402699bba64b09 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:42:57 +0000
Subject: [PATCH 009/149] fix: iterating over a FAST input file runs past its
 last line

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 47780da..4916e75 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -226,7 +226,7 @@ class FASTInputFileBase(File):
         return self
 
     def __next__(self): # Python 2: def next(self)
-        if self.iCurrent > self.iMax:
+        if self.iCurrent >= self.iMax:
             raise StopIteration
         else:
             self.iCurrent += 1
-- 
2.43.0


From af791cb153e9856a40dbc5432b0305462de7fdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 010/149] fix: FAST input files starting with an empty line
 cannot be read

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 4916e75..409fb3f 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1664,7 +1664,7 @@ def detectAndReadExtPtfmSE(self, lines):
         return M
     if len(lines)<10:
         return False
-    if not (lines[0][0]=='!' and lines[1][0]=='!'):
+    if not (lines[0].startswith('!') and lines[1].startswith('!')):
         return False
     if lines[1].lower().find('flex')<0:
         return
-- 
2.43.0


From 7e22024c6b46a5387ce1f6b495700123d19201e7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:45:16 +0000
Subject: [PATCH 011/149] fix: FAST input files with characters that are not
 utf-8 can be read but not written

---
 weio/fast_input_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 409fb3f..cbe5daa 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -747,7 +747,7 @@ class FASTInputFileBase(File):
 
     def _write(self):
         self._writeSanityChecks()
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f:
             f.write(self.toString())
 
     def toDataFrame(self):
@@ -1581,7 +1581,7 @@ class ADPolarFile(FASTInputFileBase):
                     if i>0:
                         self.data[i]['label'] = labRaw
             # Write
-            with open(self.filename,'w') as f:
+            with open(self.filename,'w', errors="surrogateescape") as f:
                 f.write(self.toString())
             # Restore labels 
             for i,labFull in enumerate(AllLabels):
-- 
2.43.0


From 15f036c64c5867593016556150be841290ef516e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:45:16 +0000
Subject: [PATCH 012/149] fix: FAST input files with a negative integer on the
 third line cannot be read

The integer was taken as a number of airfoil tables.
---
 weio/fast_input_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index cbe5daa..8fe0a8a 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -847,6 +847,8 @@ class FASTInputFileBase(File):
         if not strIsInt(L3[0]):
             return False
         nTables=int(L3[0])
+        if nTables<1:
+            return False
         # Reading table ID
         L4 = lines[3].strip().split()
         if len(L4)<=nTables:
-- 
2.43.0


From 4412b2e54e828a75c03e9e7388262f7b315b51aa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:47:23 +0000
Subject: [PATCH 013/149] fix: setting an unknown variable of a FAST input file
 is silently ignored

getIDs is meant to raise a KeyError when the label is not found.
---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 8fe0a8a..be84665 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -206,7 +206,7 @@ class FASTInputFileBase(File):
             d = self.data[i]
             if d['label'].lower()==label.lower():
                 I.append(i)
-        if len(I)<0:
+        if len(I)==0:
             raise KeyError('Variable `'+ label+'` not found in FAST file:'+self.filename)
         else:
             return I
-- 
2.43.0


From f0779b1fb08293999ce76d85b613c8ca92605122 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:47:23 +0000
Subject: [PATCH 014/149] fix: setting the comment of a FAST input file fails

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index be84665..9dc322b 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -124,7 +124,7 @@ class FASTInputFile(File):
 
     @comment.setter
     def comment(self,comment):
-        self.fixedfile.comment(comment)
+        self.fixedfile.comment = comment
 
     def __iter__(self):
         return self.fixedfile.__iter__()
-- 
2.43.0


From 4bfebbd38e60db7fb3fe0051373c6e574d4950c6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:52:21 +0000
Subject: [PATCH 015/149] fix: comment line of ElastoDyn and AeroDyn blade
 files is altered or breaks the object

The generic reader splits the second line into value/label/description. The
dedicated class attempted to restore it, but with a string instead of a
dictionary, so that the file could then not be used.
---
 weio/fast_input_file.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 9dc322b..8ac5f29 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -293,6 +293,12 @@ class FASTInputFileBase(File):
         """ return indices of comment line"""
         return [] # Typical OpenFAST files have comment on second line [1]
 
+    def _restoreCommentLine(self, lines, i=1):
+        """ Line `i` is known to be a comment, but the generic reader might have seen a variable"""
+        d=getDict()
+        d['isComment'] = True
+        d['value']     = lines[i]
+        self.data[i] = d
 
     def read(self, filename=None):
         if filename:
@@ -1307,6 +1313,7 @@ class EDBladeFile(FASTInputFileBase):
     def from_fast_input_file(cls, parent):
         self = cls()
         self.setData(filename=parent.filename, data=parent.data, hasNodal=parent.hasNodal, module='EDBlade')
+        self._restoreCommentLine(parent._lines)
         return self
 
     def __init__(self, filename=None, **kwargs):
@@ -1344,11 +1351,12 @@ class EDBladeFile(FASTInputFileBase):
             self.addValKey(     0.0   , 'BldEdgSh(4)', '           , coeff of x^4')
             self.addValKey(     0.0   , 'BldEdgSh(5)', '           , coeff of x^5')
             self.addValKey(     0.0   , 'BldEdgSh(6)', '           , coeff of x^6')
-        else:
-            # fix some stuff that generic reader fail at
-            self.data[1] =  self._lines[1]
         self.module='EDBlade'
 
+    def _read(self):
+        FASTInputFileBase._read(self)
+        self._restoreCommentLine(self._lines)
+
     def _writeSanityChecks(self):
         """ Sanity checks before write """
         self['NBlInpSt']=self['BldProp'].shape[0]
@@ -1393,6 +1401,7 @@ class ADBladeFile(FASTInputFileBase):
     def from_fast_input_file(cls, parent):
         self = cls()
         self.setData(filename=parent.filename, data=parent.data, hasNodal=parent.hasNodal, module='ADBlade')
+        self._restoreCommentLine(parent._lines)
         return self
 
     def __init__(self, filename=None, **kwargs):
@@ -1406,6 +1415,10 @@ class ADBladeFile(FASTInputFileBase):
             self.addTable('BldAeroNodes', np.zeros((0,7)), tabType=1, tabDimVar='NumBlNds', cols=['BlSpn', 'BlCrvAC', 'BlSwpAC', 'BlCrvAng', 'BlTwist', 'BlChord', 'BlAFID'], units=['(m)', '(m)', '(m)', '(deg)', '(deg)', '(m)', '(-)'])
         self.module='ADBlade'
 
+    def _read(self):
+        FASTInputFileBase._read(self)
+        self._restoreCommentLine(self._lines)
+
     def _writeSanityChecks(self):
         """ Sanity checks before write"""
         self['NumBlNds']=self['BldAeroNodes'].shape[0]
-- 
2.43.0


From 42439c253fd3e1ce2251da375ff977f5f79e3781 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:52:21 +0000
Subject: [PATCH 016/149] fix: comment of AeroDyn airfoil files

---
 weio/fast_input_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 8ac5f29..530b9f9 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1647,7 +1647,7 @@ class ADPolarFile(FASTInputFileBase):
 
     @property
     def comment(self):
-        return FASTInputFileBase.comment
+        return FASTInputFileBase.comment.fget(self)
 
     @comment.setter
     def comment(self, comment):
@@ -1660,7 +1660,7 @@ class ADPolarFile(FASTInputFileBase):
         """ return indices of comment line"""
         I=[]
         for i in [1,2,3]:
-            if self.data[i]['value'].startswith('!'):
+            if self.data[i]['isComment'] and self.data[i]['value'].startswith('!'):
                 if not self.data[i]['value'].startswith('! ---'):
                     I.append(i)
         return I
-- 
2.43.0


From 8faca3f3f63720e7b2504d88eeaf1c624f2dbfef Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:52:22 +0000
Subject: [PATCH 017/149] fix: second table of an AeroDyn airfoil file created
 from scratch has no InclUAdata

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 530b9f9..de6eed0 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1526,7 +1526,7 @@ class ADPolarFile(FASTInputFileBase):
                 self.addValKey(     1.0 ,    'Re'  +labOffset , 'Reynolds number in millions')
                 self.addValKey(       0 ,    'Ctrl'+labOffset , 'Control setting')
                 if hasUA:
-                    self.addValKey(True  ,    'InclUAdata', 'Is unsteady aerodynamics data included in this table? If TRUE, then include 30 UA coefficients below this line')
+                    self.addValKey(True  ,    'InclUAdata'+labOffset, 'Is unsteady aerodynamics data included in this table? If TRUE, then include 30 UA coefficients below this line')
                     self.addComment('!........................................')
                     self.addValKey(     np.nan   , 'alpha0'    + labOffset, r"0-lift angle of attack, depends on airfoil.")
                     self.addValKey(     np.nan   , 'alpha1'    + labOffset, r"Angle of attack at f=0.7, (approximately the stall angle) for AOA>alpha0. (deg)")
-- 
2.43.0


From 311a4100fa73100d49018ad1e7f3e5abd45f57b6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:52:22 +0000
Subject: [PATCH 018/149] fix: ExtPtfm loading can miss its last time step due
 to round-off (e.g. T=0.3, dt=0.1)

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index de6eed0..403bdbc 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1715,7 +1715,7 @@ def detectAndReadExtPtfmSE(self, lines):
                 i=i+1+nDOF
             elif l.find('!loading')==0:
                 try: 
-                    nt=int(self['T']/self['dt'])+1
+                    nt=int(self['T']/self['dt']+1e-6)+1
                 except:
                     raise BrokenFormatError('Cannot read loading since time step and simulation time not properly set.')
                 self.addKeyVal('Loading',readmat(nt,nDOFCommon+1,lines,i+2))
-- 
2.43.0


From 0d10085a806de3376ab15bce57b1100059b4bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:52:43 +0000
Subject: [PATCH 019/149] fix: AeroDyn airfoil files without unsteady data
 cannot be converted to dataframes

---
 weio/fast_input_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 403bdbc..842e71b 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1616,11 +1616,13 @@ class ADPolarFile(FASTInputFileBase):
             alpha = df['Alpha_[deg]'].values*np.pi/180.
             Cl    = df['Cl_[-]'].values
             Cd    = df['Cd_[-]'].values
-            Cd0   = self['Cd0'+labOffset]
             # Cn (with or without Cd0)
-            Cn1 = Cl*np.cos(alpha)+ (Cd-Cd0)*np.sin(alpha) 
             Cn  = Cl*np.cos(alpha)+ Cd*np.sin(alpha) 
             df['Cn_[-]'] = Cn
+            if self.getIDSafe('Cd0'+labOffset)<0:
+                continue # No unsteady aerodynamic data in this table
+            Cd0   = self['Cd0'+labOffset]
+            Cn1 = Cl*np.cos(alpha)+ (Cd-Cd0)*np.sin(alpha) 
             df['Cn_Cd0off_[-]'] = Cn1
 
             CnLin = self['C_nalpha'+labOffset]*(alpha-self['alpha0'+labOffset]*np.pi/180.)
-- 
2.43.0


From a437c079f759df7b9cbabd7e9f2c1064e6d910f6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:55:07 +0000
Subject: [PATCH 020/149] fix: multi-table airfoil files: table number is
 written in the labels missing from a fixed list

Parameters such as alphaUpper were written as alphaUpper_1 and could not be
read back.
---
 weio/fast_input_file.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 842e71b..5ff972e 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1585,16 +1585,17 @@ class ADPolarFile(FASTInputFileBase):
             FASTInputFileBase._write(self)
         else:
             self._writeSanityChecks()
-            Labs=['Re','Ctrl','UserProp','alpha0','alpha1','alpha2','eta_e','C_nalpha','T_f0','T_V0','T_p','T_VL','b1','b2','b5','A1','A2','A5','S1','S2','S3','S4','Cn1','Cn2','St_sh','Cd0','Cm0','k0','k1','k2','k3','k1_hat','x_cp_bar','UACutout','filtCutOff','InclUAdata','NumAlf','AFCoeff']
             # Store all labels
             AllLabels=[self.data[i]['label'] for i in range(len(self.data))]
             # Removing lab Offset - TODO TEMPORARY HACK
-            for iTab in range(nTabs):
-                labOffset='_{}'.format(iTab+1)
-                for labRaw in Labs:
-                    i = self.getIDSafe(labRaw+labOffset)
-                    if i>0:
-                        self.data[i]['label'] = labRaw
+            labOffset=''
+            for d in self.data:
+                if d['label'].lower().startswith('re_') and d['label'][3:].isdigit():
+                    # Start of a new table
+                    labOffset = d['label'][2:]
+                    d['label'] = 'Re'
+                elif len(labOffset)>0 and d['label'].endswith(labOffset):
+                    d['label'] = d['label'][:-len(labOffset)]
             # Write
             with open(self.filename,'w', errors="surrogateescape") as f:
                 f.write(self.toString())
-- 
2.43.0


From a84908f4942f9371e4281c6a93b01c9b49749a54 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 021/149] fix: writing Excel files fails with recent pandas or
 without xlsxwriter

ExcelWriter.save was removed in pandas 2, and the engine was imposed.
---
 weio/excel_file.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/weio/excel_file.py b/weio/excel_file.py
index df28931..f9cd555 100644
--- a/weio/excel_file.py
+++ b/weio/excel_file.py
@@ -48,12 +48,11 @@ class ExcelFile(File):
     #    return s
 
     def _write(self):
-        # Create a Pandas Excel writer using XlsxWriter as the engine.
-        writer = pd.ExcelWriter(self.filename, engine='xlsxwriter')
-        # Convert the dataframe to an XlsxWriter Excel object.
-        for k,_ in self.data.items():
-            df = self.data[k]
-            df.to_excel(writer, sheet_name=k, index=False)
+        # Create a Pandas Excel writer (using the Excel engine available), closed at the end of the block
+        with pd.ExcelWriter(self.filename) as writer:
+            for k,_ in self.data.items():
+                df = self.data[k]
+                df.to_excel(writer, sheet_name=k, index=False)
         # # Account info columns (set size)
         # worksheet.set_column('B:D', 20)
         # # Total formatting
@@ -72,8 +71,6 @@ class ExcelFile(File):
         #worksheet.conditional_format(color_range, {'type': 'bottom',
         #                                           'value': '5',
         #                                           'format': format1})
-        # Close the Pandas Excel writer and output the Excel file.
-        writer.save()
 
     def __repr__(self):
         s ='Class XXXX (attributes: data)\n'
-- 
2.43.0


From e053bea727afe305ef3e53eb56421fe3036ca79a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:58:47 +0000
Subject: [PATCH 022/149] fix: files with non ascii characters after their
 first 32 bytes cannot be read

---
 weio/file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weio/file.py b/weio/file.py
index c28f78f..6febcb0 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -69,6 +69,9 @@ class File(dict):
             return 'utf-8-sig'
         else:
             result = chardet.detect(raw)
+            if result['encoding']=='ascii':
+                # Only the first bytes were looked at, the rest of the file may contain utf-8 characters
+                return 'utf-8'
             return result['encoding']
 
 
-- 
2.43.0


From eff046b5175739e3c990204f488973a807c5e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:00:20 +0000
Subject: [PATCH 023/149] fix: CSV separator is not detected when the first
 cell of the first row is empty

---
 weio/csv_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 5e8197c..8b033f0 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -159,9 +159,9 @@ class CSVFile(File):
                     dummy=[next(f).strip() for x in range(iStartLine)]
                     head=[next(f).strip() for x in range(2)]
                 # comma, semi columns or tab
-                if head[1].find(',')>0:
+                if head[1].find(',')>=0:
                     self.sep=','
-                elif head[1].find(';')>0:
+                elif head[1].find(';')>=0:
                     self.sep=';'
                 elif head[1].find('\t')>0:
                     self.sep='\t'
-- 
2.43.0


From f057e6a5f7a822523e6a4c3198a48ffea45be7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:30:52 +0000
Subject: [PATCH 024/149] fix: writing CSV files with a header loses the column
 names and uses a removed pandas option

---
 weio/csv_file.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 8b033f0..d704e49 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -39,6 +39,7 @@ class CSVFile(File):
         commentLines = [] if commentLines is None else commentLines
         self.sep          = sep
         self.colNames     = colNames
+        self.colNamesInFile = len(colNames)==0 # names provided by the user are not present in the file
         self.commentChar  = commentChar
         self.commentLines = commentLines
         self.colNamesLine = colNamesLine
@@ -254,25 +255,32 @@ class CSVFile(File):
 
     def _write(self):
         # --- Safety
+        if self.sep is None:
+            self.sep=','
         if self.sep==r'\s+' or self.sep=='':
             self.sep='\t'
+        # Missing values need a placeholder when columns are separated by white spaces
+        na_rep = 'NaN' if len(self.sep.strip())==0 else ''
         # Write
         if len(self.header)>0:
-            with open(self.filename, 'w', encoding='utf-8') as f:
+            # Column names are written below the header, unless they are already part of it, or provided by the user
+            colNames = [str(c) for c in self.data.columns]
+            namesInHeader = not self.colNamesInFile
+            sep = self.sep
+            for l in self.header:
+                if self.commentChar is not None and l.startswith(self.commentChar):
+                    l = l[len(self.commentChar):]
+                if [c.strip() for c in colNames] == [c.strip() for c in l.split(self.sep)]:
+                    namesInHeader = True
+                elif self.sep=='\t' and colNames == l.split():
+                    # names are separated by blanks, so should the values
+                    namesInHeader = True
+                    sep = ' '
+            with open(self.filename, 'w', encoding='utf-8', newline='\n') as f:
                 f.write('\n'.join(self.header)+'\n')
-            with open(self.filename, 'a', encoding='utf-8') as f:
-                try:
-                    self.data.to_csv(f,   sep=self.sep,     index=False,header=False, line_terminator='\n')
-                except TypeError:
-                    print('[WARN] CSVFile: Pandas failed, likely encoding error. Attempting a quick and dirty fix.')
-                    s=''
-                    vals=self.data.values
-                    for l in vals:
-                        sLine=(self.sep).join([str(v) for v in l])
-                        s+=sLine+'\n'
-                    f.write(s)
+                self.data.to_csv(f, sep=sep, index=False, header=not namesInHeader, na_rep=na_rep)
         else:
-            self.data.to_csv(self.filename,sep=self.sep,index=False)
+            self.data.to_csv(self.filename,sep=self.sep,index=False, na_rep=na_rep)
 
     def __repr__(self):
         s = 'CSVFile: {}\n'.format(self.filename)
-- 
2.43.0


From a555b26aad8e91b184f4daf21f9ebef7b9ea4cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:30:52 +0000
Subject: [PATCH 025/149] fix: utf-8 files with a special character within
 their first bytes are read with a wrong encoding

---
 weio/file.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/weio/file.py b/weio/file.py
index 6febcb0..a8b9dd4 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -68,10 +68,15 @@ class File(dict):
         if raw.startswith(codecs.BOM_UTF8):
             return 'utf-8-sig'
         else:
+            # Only the first bytes are looked at: if these are valid (possibly with an incomplete last character)
+            # utf-8 or ascii characters, we assume that the whole file is utf-8
+            if b'\x00' not in raw:
+                try:
+                    codecs.getincrementaldecoder('utf-8')().decode(raw)
+                    return 'utf-8'
+                except UnicodeDecodeError:
+                    pass
             result = chardet.detect(raw)
-            if result['encoding']=='ascii':
-                # Only the first bytes were looked at, the rest of the file may contain utf-8 characters
-                return 'utf-8'
             return result['encoding']
 
 
-- 
2.43.0


From ad6fb3a38a15126946617d4be5bae21954ee58e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:49:55 +0000
Subject: [PATCH 026/149] fix: sets property of HAWC2 pc files

---
 weio/hawc2_pc_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_pc_file.py b/weio/hawc2_pc_file.py
index 74e69bd..e7a75c5 100644
--- a/weio/hawc2_pc_file.py
+++ b/weio/hawc2_pc_file.py
@@ -77,7 +77,7 @@ class HAWC2PCFile(File):
 
     @property
     def sets(self):
-        return self.pc_sets
+        return self.data.pc_sets
 
     def __repr__(self):
         cols=['Alpha_[deg]','Cl_[-]','Cd_[-]','Cm_[-]']
-- 
2.43.0


From 57be189707f4934234b82f225fa057402fc5d06b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:49:55 +0000
Subject: [PATCH 027/149] fix: HAWC2 ae files with sets that are not numbered
 1, 2, ... cannot be converted to dataframes

---
 weio/hawc2_ae_file.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/weio/hawc2_ae_file.py b/weio/hawc2_ae_file.py
index 950fe6a..07ce916 100644
--- a/weio/hawc2_ae_file.py
+++ b/weio/hawc2_ae_file.py
@@ -58,20 +58,20 @@ class HAWC2AEFile(File):
         cols=['radius_[m]','chord_[m]','thickness_[%]','pc_set_[#]']
         nset = len(self.data.ae_sets)
         if nset == 1:
-            return pd.DataFrame(data=self.data.ae_sets[1], columns=cols)
+            return pd.DataFrame(data=self.sets[0], columns=cols)
         else:
             dfs = {}
-            for iset,aeset in enumerate(self.data.ae_sets):
-                name='ae_set_{}'.format(iset+1)
-                dfs[name] = pd.DataFrame(data=self.data.ae_sets[iset+1], columns=cols)
+            for iset,aeset in self.data.ae_sets.items():
+                name='ae_set_{}'.format(iset)
+                dfs[name] = pd.DataFrame(data=aeset, columns=cols)
             return dfs
 
     @property
     def sets(self):
         # Returns a list of ae_sets, otherwise not easy to iterate
         sets=[]
-        for iset,aeset in enumerate(self.data.ae_sets):
-            sets.append(self.data.ae_sets[iset+1])
+        for iset,aeset in self.data.ae_sets.items():
+            sets.append(aeset)
         return sets
 
     # --- Convenient utils
-- 
2.43.0


From 18ca0732cec144273dc5656023753df7ac6f8373 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:58:42 +0000
Subject: [PATCH 028/149] fix: HAWC2 htc output_at_time sections with a comment
 cannot be written

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 22aa3e4..ea3b6d5 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -419,7 +419,7 @@ class HTCOutputAtTimeSection(HTCOutputSection):
 
     def __str__(self, level=0):
         s = "%sbegin %s %s %s;%s\n" % ("  " * level, self.name_, self.type, self.time,
-                                       ("", "\t" + self.begin_comments)[len(self.begin_comments.strip())])
+                                       ("", "\t" + self.begin_comments)[len(self.begin_comments.strip()) > 0])
         s += "".join([c.__str__(level + 1) for c in self])
         s += "".join([s.__str__(level + 1) for s in self.sensors])
         s += "%send %s;%s\n" % ("  " * level, self.name_, ("", "\t" + self.end_comments)
-- 
2.43.0


From 043364d13f5ba7ef97bf3f4eb9eed70a4696f706 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:58:42 +0000
Subject: [PATCH 029/149] fix: consecutive blank lines in the output section of
 HAWC2 htc files raise an IndexError

---
 weio/wetb/hawc2/htc_contents.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index ea3b6d5..380dbf0 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -236,6 +236,7 @@ class HTCSection(HTCContents):
         while lines:
             if lines[0].strip() == "":
                 lines.pop(0)
+                continue
             if lines[0].lower().startswith("begin"):
                 section._add_contents(HTCSection.from_lines(lines))
             elif lines[0].lower().startswith("end"):
-- 
2.43.0


From a7c904ac669c7754ff667f833ceb10747cbea581 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:58:42 +0000
Subject: [PATCH 030/149] fix: copies of HAWC2 htc output sections lose their
 sensors and type

---
 weio/wetb/hawc2/htc_contents.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 380dbf0..cec3c7c 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -288,8 +288,12 @@ class HTCSection(HTCContents):
 
     def copy(self):
         copy = HTCSection(name=self.name_, begin_comments=self.begin_comments, end_comments=self.end_comments)
+        return self._copy_contents(copy)
+
+    def _copy_contents(self, copy):
         for k, v in self.contents.items():
             copy.contents[k] = v.copy()
+            copy.contents[k].parent = copy
         return copy
 
 
@@ -386,6 +390,14 @@ class HTCOutputSection(HTCSection):
         else:
             return HTCSection._add_contents(self, contents)
 
+    def copy(self):
+        return self._copy_contents(HTCOutputSection(self.name_, self.begin_comments, self.end_comments))
+
+    def _copy_contents(self, copy):
+        for sensor in self.sensors:
+            copy._add_sensor(sensor.copy())
+        return HTCSection._copy_contents(self, copy)
+
     def __str__(self, level=0):
         s = "%sbegin %s;%s\n" % ("  " * level, self.name_, ("", "\t" + self.begin_comments)
                                  [len(self.begin_comments.strip()) > 0])
@@ -418,6 +430,10 @@ class HTCOutputAtTimeSection(HTCOutputSection):
         self.time = float(time)
         HTCOutputSection.__init__(self, name, begin_comments=begin_comments, end_comments=end_comments)
 
+    def copy(self):
+        name = "%s %s %s" % (self.name_, self.type, self.time)
+        return self._copy_contents(HTCOutputAtTimeSection(name, self.begin_comments, self.end_comments))
+
     def __str__(self, level=0):
         s = "%sbegin %s %s %s;%s\n" % ("  " * level, self.name_, self.type, self.time,
                                        ("", "\t" + self.begin_comments)[len(self.begin_comments.strip()) > 0])
@@ -468,6 +484,9 @@ class HTCSensor(HTCLine):
                                    ("", "\t" + self.str_values())[bool(self.values)],
                                    ("", "\t" + self.comments)[bool(self.comments.strip())])
 
+    def copy(self):
+        return HTCSensor(self.type, self.sensor, self.values, self.comments)
+
     def delete(self):
         self.parent.sensors.remove(self)
 
-- 
2.43.0


From ae2474b37bf1a79689e9ad19c940d5be94d90c14 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:58:42 +0000
Subject: [PATCH 031/149] fix: undefined variable in get_element of HAWC2 htc
 sections

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index cec3c7c..24dd8a3 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -276,7 +276,7 @@ class HTCSection(HTCContents):
         if isinstance(key, int):
             lst = [s for s in self if s.values[key] == value]
         elif isinstance(key, str):
-            lst = [s for s in self if key in s and s[key][0] == name]
+            lst = [s for s in self if key in s and s[key][0] == value]
         else:
             raise ValueError("Key argument must be int or str")
         if len(lst) == 1:
-- 
2.43.0


From a364f5c6ecef8d1a323ffec29238bd51238891a8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:58:42 +0000
Subject: [PATCH 032/149] fix: comparison of HAWC2 htc output sections ignores
 additional sensors of the other file

---
 weio/wetb/hawc2/htc_contents.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 24dd8a3..e3b7285 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -413,8 +413,8 @@ class HTCOutputSection(HTCSection):
             s += s1.compare(s2)
         for s1 in self.sensors[len(other.sensors):]:
             s += "\n".join(["- %s" % l for l in str(s1).strip().split("\n")]) + "\n"
-        for s2 in self.sensors[len(self.sensors):]:
-            s += "\n".join(["- %s" % l for l in str(s2).strip().split("\n")]) + "\n"
+        for s2 in other.sensors[len(self.sensors):]:
+            s += "\n".join(["+ %s" % l for l in str(s2).strip().split("\n")]) + "\n"
 
         return s
 
-- 
2.43.0


From 4f2ec6207ac6d7b821ba60343cbc98aa5a27ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:00:40 +0000
Subject: [PATCH 033/149] fix: text values of HAWC2 htc files such as 1_2 are
 changed to numbers, and inf raises an error

---
 weio/wetb/hawc2/htc_contents.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index e3b7285..b436b38 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -29,10 +29,12 @@ def parse_next_line(lines):
 
 def fmt_value(v):
     try:
+        if "_" in v:  # e.g. 1_2, a name and not the number 12
+            raise ValueError
         if int(float(v)) == float(v):
             return int(float(v))
         return float(v)
-    except ValueError:
+    except (ValueError, OverflowError):
         return v.replace("\\", "/")
 
 
@@ -469,10 +471,12 @@ class HTCSensor(HTCLine):
 
         def fmt(v):
             try:
+                if "_" in v:
+                    raise ValueError
                 if int(float(v)) == float(v):
                     return int(float(v))
                 return float(v)
-            except ValueError:
+            except (ValueError, OverflowError):
                 return v
         values = [fmt(v) for v in values]
         return HTCSensor(type, sensor, values, comments)
-- 
2.43.0


From 48039f6889d8833fcb51806768f9aab09531773e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:03:09 +0000
Subject: [PATCH 034/149] fix: BHawC sel files with few channels cannot be read

---
 weio/wetb/hawc2/Hawc2io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 192ab50..87d2285 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -99,7 +99,7 @@ class ReadHawc2(object):
             self.t = np.linspace(0, self.Time, self.NrSc + 1)[1:]
             # --- Find line with channel info
             iLine=0
-            for i in np.arange(5,13):
+            for i in np.arange(5,min(13,len(Lines))):
                 if Lines[i].lower().find('channel')>=0:
                     iLine=i+1
             if iLine==0:
-- 
2.43.0


From 57809f8e76bd40265bbf01adb836e27b0ffdb06e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:03:09 +0000
Subject: [PATCH 035/149] fix: channels requested in several calls of ReadHawc2
 are mixed up

---
 weio/wetb/hawc2/Hawc2io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 87d2285..c0c0810 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -329,12 +329,12 @@ class ReadHawc2(object):
                 except:
                     self.Iknown.append(i)
                     I2.append(i)
-                    I1.append(len(I1))
+                    I1.append(len(self.Iknown)-1)
             # read new channels
             if I2:
                 temp = self.ReadAll(I2)
                 # add new channels to Data
-                if self.Data.any():
+                if self.Data.size > 0:
                     self.Data = np.append(self.Data, temp, axis=1)
                 # if first call, so Daata is empty
                 else:
-- 
2.43.0


From 0856951fde03e503d3f38343bf4106a4b90832ec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:03:09 +0000
Subject: [PATCH 036/149] fix: names of HAWC2 channels change every time
 toDataFrame is called

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 3a3bab4..f45aaaf 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -57,7 +57,7 @@ class HAWC2DatFile(File):
         import re
 
         # Simplify output names
-        names=self.info['attribute_names']
+        names=list(self.info['attribute_names'])
         for i,desc in enumerate(self.info['attribute_descr']):
             elem = re.findall(r'E-nr:\s*(\d+)', desc)
             zrel = re.findall(r'Z-rel:\s*(\d+.\d+)', desc)
-- 
2.43.0


From 908ab7eb602ed0805627adf6efa738d14258d701 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:03:09 +0000
Subject: [PATCH 037/149] fix: HAWC2 sel file written in another folder when
 the name of the folder contains .sel

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index f45aaaf..6fc59aa 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -107,7 +107,7 @@ class HAWC2DatFile(File):
         if ext=='.dat':
             datfilename=filename
         elif ext=='.sel':
-            datfilename=filename.replace(ext,'.dat')
+            datfilename=filename[:-4]+'.dat'
         else:
             datfilename=filename+'.dat'
         selfilename=datfilename[:-4]+'.sel'
-- 
2.43.0


From ad74687cc014bd010b25230fdab5f1415130e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:05:55 +0000
Subject: [PATCH 038/149] fix: empty Bladed files raise a NameError

---
 weio/bladed_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 1315fb2..f32e9d7 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import glob
 import shlex
 # try:
-from .file import File, WrongFormatError, BrokenFormatError, isBinary
+from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError, isBinary
 # except:
 #     EmptyFileError    = type('EmptyFileError', (Exception,),{})
 #     WrongFormatError  = type('WrongFormatError', (Exception,),{})
-- 
2.43.0


From c5b1ae47cc891bca702cc3af15b1a2e39e01b282 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:05:55 +0000
Subject: [PATCH 039/149] fix: integer data of Bladed output files are decoded
 as floats

---
 weio/bladed_out_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index f32e9d7..d78b88f 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -55,6 +55,8 @@ def read_bladed_sensor_file(sensorfile):
             dat['Precision'] = np.float32
             if temp[-1] == '8':
                 dat['Precision'] = np.float64
+            elif temp.upper().startswith('I'):
+                dat['Precision'] = np.int32
 
         elif t_line.startswith('GENLAB'):
             # category of the file you are reading:
-- 
2.43.0


From 06c13991bf86274ce1a3a33d8790803c987e7d09 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:05:55 +0000
Subject: [PATCH 040/149] fix: Bladed text output files with a single row
 cannot be read

---
 weio/bladed_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index d78b88f..c55f621 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -198,7 +198,7 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
         if sensorInfo['NDIMENS'] == 2:
             try:
                 # Data is stored as time, signal, we reshape to signal, time
-                data = np.loadtxt(dataFilename)
+                data = np.loadtxt(dataFilename).reshape((nMajor, nSensors))
             except ValueError as e:
                 # Most likely this was a binary file...
                 data = np.empty((nMajor, nSensors)) * np.nan
-- 
2.43.0


From 84138c0cbff70f2cb7b200b5923da1d5fd33aa24 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:05:55 +0000
Subject: [PATCH 041/149] fix: Bladed text output files that cannot be read are
 replaced by a table of NaN

---
 weio/bladed_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index c55f621..efa8198 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -215,8 +215,8 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
                 # Data is stored as sections, time, signal, we reshape to signal, section, time
                 data = np.loadtxt(dataFilename).reshape((nMajor, nSections, nSensors),order='C')
             except:
-                data = np.empty((nMajor, nSections, nSensors)) * np.nan
                 print('>>> Failed to read 3d ascii file: {}'.format(dataFilename))
+                raise
 
     return OrgData(data, **sensorInfo)
 
-- 
2.43.0


From fe2b4a48db440b168dd007761bd472fac6aa9004 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:05:55 +0000
Subject: [PATCH 042/149] fix: Bladed files are not found when their path
 contains a percent sign or brackets

---
 weio/bladed_out_file.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index efa8198..67f5a4f 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -160,6 +160,12 @@ def OrgData(data, **info):
 
 
 
+def bladed_data_filename(sensorFilename):
+    """ Data file (.$XX) corresponding to a sensor file (.%XX) """
+    basename, ext = os.path.splitext(sensorFilename)
+    return basename + ext.replace('%','$')
+
+
 def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
     """
     read a bladed sensor file and data file, reorganize a 3D file into 2D table
@@ -175,7 +181,7 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
         return [], {}
     
     # --- Read data file
-    dataFilename = sensorFilename.replace('%','$')
+    dataFilename = bladed_data_filename(sensorFilename)
 
     if isBinary(dataFilename):            # it is binary            
 
@@ -275,10 +281,10 @@ class BladedFile(File):
         basename, ext = os.path.splitext(self.filename)
         if ext.lower()=='.$pj':
             readTimeFilesOnly=True
-            searchPattern = basename + '.%[0-9][0-9]*' # find all files in the folder
+            searchPattern = glob.escape(basename) + '.%[0-9][0-9]*' # find all files in the folder
         else:
             readTimeFilesOnly=False
-            searchPattern = basename + ext.replace('$','%') # sensor file name
+            searchPattern = glob.escape(basename + ext.replace('$','%')) # sensor file name
         
         # Look for files matching pattern
         files = glob.glob(searchPattern)
@@ -297,7 +303,7 @@ class BladedFile(File):
 
         for i,filename in enumerate(files):
 
-            dataFilename = filename.replace('%','$')
+            dataFilename = bladed_data_filename(filename)
             try:
                 # Call "Read_bladed_file" function to Read and store data:
                 data, info = read_bladed_output(filename, readTimeFilesOnly=readTimeFilesOnly)    
-- 
2.43.0


From ade5ff85eb4844345b7c9bd877445f82be12604f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:05:55 +0000
Subject: [PATCH 043/149] fix: binary Bladed output files whose first bytes
 look like text cannot be read

---
 weio/bladed_out_file.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 67f5a4f..0149523 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -49,6 +49,10 @@ def read_bladed_sensor_file(sensorfile):
                 dat['nSections'] = 1
                 dat['SectionList'] = []
 
+        elif t_line.startswith('ACCESS'):
+            # D: direct access, binary, S: sequential, ascii
+            dat['Access'] = t_line[6:].strip()
+
         elif t_line.startswith('FORMAT'):
             # precision: n/a, R*4, R*8, I*4 
             temp = t_line[7:].strip()
@@ -183,7 +187,12 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
     # --- Read data file
     dataFilename = bladed_data_filename(sensorFilename)
 
-    if isBinary(dataFilename):            # it is binary            
+    # NOTE: the content of a binary file may look like ascii, the size does not lie
+    binarySize = nMajor*nSections*nSensors if sensorInfo['NDIMENS']==3 else nMajor*nSensors
+    binarySize *= np.dtype(sensorInfo.get('Precision', np.float32)).itemsize
+    bBinary = sensorInfo.get('Access','')=='D' and os.path.getsize(dataFilename)==binarySize
+
+    if bBinary or isBinary(dataFilename):            # it is binary            
 
         with open(os.path.join(dataFilename), 'rb') as fid_2:
             data = np.fromfile(fid_2, sensorInfo['Precision'])
-- 
2.43.0


From 46d261cf41c8d64144d6db7c471a221aaf5dc708 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:05:55 +0000
Subject: [PATCH 044/149] fix: Bladed project files lose datasets of different
 lengths that have the same label

---
 weio/bladed_out_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 0149523..3779605 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -371,7 +371,8 @@ class BladedFile(File):
             self.dataSets= {'Misc': dataSets[keyMisc[0]]}
         else:
             # Instead of using nMajor as key, we use the "name"
-            self.dataSets= {v['name']: v for (k, v) in dataSets.items()}
+            names = [v['name'] for v in dataSets.values()]
+            self.dataSets= {v['name'] if names.count(v['name'])==1 else v['name']+'_'+str(k): v for (k, v) in dataSets.items()}
 
                 
     def toDataFrame(self):        
-- 
2.43.0


From 795d1cc128cd947e3ed2103eed14a28b3f691ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:12:58 +0000
Subject: [PATCH 045/149] fix: number of time stamps of FLEX output files may
 differ from the number of rows

---
 weio/flex_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index d9c95e5..f05439d 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -41,7 +41,7 @@ class FLEXOutFile(File):
             raise WrongFormatError('FLEX File {}: '.format(self.filename)+'\n'+e.args[0])
         self.nt       = np.size(self.data,0)
         self.nSensors = np.size(self.data,1)
-        self.time = np.arange(self.tmin, self.tmin +  self.nt * self.dt, self.dt).reshape(self.nt,1).astype(dtype)
+        self.time = (self.tmin + np.arange(self.nt) * self.dt).reshape(self.nt,1).astype(dtype)
 
         # --- Then the sensor file
         sensor_filename = os.path.join(os.path.dirname(self.filename), "sensor")
-- 
2.43.0


From 47e319356301e06f0f182a3a416ed7120923af76 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:12:59 +0000
Subject: [PATCH 046/149] fix: FLEX blade files without version whose title
 contains a number at its second character cannot be read

---
 weio/flex_blade_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_blade_file.py b/weio/flex_blade_file.py
index 4442ffa..03dc207 100644
--- a/weio/flex_blade_file.py
+++ b/weio/flex_blade_file.py
@@ -33,7 +33,7 @@ class FLEXBladeFile(File):
             except:
                 raise WrongFormatError('Unable to read first two lines of blade file')
             try:
-                self.version=int(firstline[1:4])
+                self.version=int(firstline[1:4]) if firstline.startswith('#') else 0
             except:
                 self.version=0
             # --- Different handling depending on version
-- 
2.43.0


From 09cfa09bdc958f8562ade2af662eb500b30d46f0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:12:59 +0000
Subject: [PATCH 047/149] fix: FLEX profile files cannot be written

---
 weio/flex_profile_file.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index 9a29f17..52d708e 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -20,12 +20,12 @@ class ProfileSet():
 
     def toString(self,PREFIX=''):
         s =PREFIX+self.header+'\n'
+        s+=str(len(self.thickness))+'\n'
         s+=' '.join([str(t) for t in self.thickness])+'\n'
         s+=str(self.polars[0].shape[0])+'\n'
         for ph,t,polar in zip(self.polar_headers,self.thickness,self.polars):
             s+=ph+'\n'
-            s+='\n'.join([' '.join(['{:15.7e}'.format(v) for v in line]) for line in polar])
-#             s+=ph+'\n'
+            s+='\n'.join([' '.join(['{:15.7e}'.format(v) for v in line]) for line in polar])+'\n'
         return s
 
     def __repr__(self):
@@ -50,6 +50,7 @@ class FLEXProfileFile(File):
 
     def _read(self):
         self.ProfileSets=[]
+        self._hasSets=False
         setNumber=1
         with open(self.filename, 'r', errors="surrogateescape") as f:
             def read_header(allow_empty=False):
@@ -84,7 +85,7 @@ class FLEXProfileFile(File):
                 except:
                     raise WrongFormatError('Number of alpha values (integer) should be on line 4')
                 if header[0].lower().find('profile set')==0:
-                    header[0]=header[0][11:]
+                    header[0]=header[0][11:].strip()
                     bHasSets=True
                 else:
                     bHasSets=False
@@ -112,11 +113,12 @@ class FLEXProfileFile(File):
                 polars,polar_headers             = read_polars(nAlpha,thickness)
                 PSet= ProfileSet(Header,thickness,polars,polar_headers)
                 self.ProfileSets.append(PSet)
+                self._hasSets = self._hasSets or bHasSets
                 setNumber=setNumber+1
 
     def toString(self):
         s=''
-        if len(self.ProfileSets)>0:
+        if self._hasSets or len(self.ProfileSets)>1:
             prefix='PROFILE SET '
         else:
             prefix=''
@@ -126,7 +128,7 @@ class FLEXProfileFile(File):
 
     def _write(self):
         with open(self.filename,'w') as f:
-            f.write(self.toString)
+            f.write(self.toString())
 
     def __repr__(self):
         s ='Class FlexProfileFile (attributes: ProfileSets)\n'
-- 
2.43.0


From 08b8d71d593909efb0a66916389e95be179d9c30 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:12:59 +0000
Subject: [PATCH 048/149] fix: first row of the matrices of FLEX documentation
 files is lost

---
 weio/flex_doc_file.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index aeac114..36b127e 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -54,7 +54,7 @@ class FLEXDocFile(File):
         ]
 
         ArraysNoHeader=[
-        '#Blade_IsolatedMassMatrix'
+        '#Blade_IsolatedMassMatrix',
         '#Blade_IsolatedStiffnessMatrix',
         '#Blade_IsolatedDampingMatrix',
         '#Foundation_IsolatedMassMatrix',
@@ -129,8 +129,6 @@ class FLEXDocFile(File):
                 elif sp[0] in ArraysNoHeader:
                     array_lines=[]
                     i=i+1
-                    header=lines[i]
-                    i=i+1
                     while i<len(lines) and len(lines[i])>0 and lines[i][0]!='#':
                         array_lines.append(np.array([float(v) for v in lines[i].split()]))
                         i=i+1
-- 
2.43.0


From 9be68ee815d195fc112df2a8fb0a00f16968fa91 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:12:59 +0000
Subject: [PATCH 049/149] fix: values of FLEX documentation files are mixed
 with the digits of their units, and texts are lost

---
 weio/flex_doc_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index 36b127e..2953635 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -148,11 +148,13 @@ class FLEXDocFile(File):
                     key=keys[0][1:]
                     subkey = '_'.join(keys[1:])
                     values= ' '.join(sp[1:])
-                    try:
-                        dat= np.array(rx.findall(values)).astype(float)
+                    # NOTE: numbers are followed by units and comments, which may contain digits
+                    numbers = re.split(r'[\[(;]', values)[0]
+                    if re.match(r'\s*[-+.\d][-+.\dEe]*(\s|$)', numbers):
+                        dat= np.array(rx.findall(numbers)).astype(float)
                         if len(dat)==1:
                             dat=dat[0]
-                    except:
+                    else:
                         dat = values
 
                     if len(key.strip())>0:
-- 
2.43.0


From a4fb2b502b058a2e14068933deb63214c6c8db51 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:20 +0000
Subject: [PATCH 050/149] fix: errors of VTK files raise a NameError

---
 weio/vtk_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index e3ed2f7..9c35605 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -19,6 +19,9 @@ except ImportError:
     BrokenFormatError =  type('BrokenFormatError', (Exception,),{})
     File=dict
 
+ReadError  = BrokenFormatError
+WriteError = type('WriteError', (Exception,),{})
+
 class VTKFile(File):
     """ 
     Read/write a VTK file (.vtk). 
-- 
2.43.0


From 2f80048db9bbc4486912bdd8e2df382b311720c9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:20 +0000
Subject: [PATCH 051/149] fix: VTK read and write without argument do not use
 the name of the file

---
 weio/vtk_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 9c35605..848bca1 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -100,7 +100,7 @@ class VTKFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
-        with open(filename, "rb") as f:
+        with open(self.filename, "rb") as f:
             # initialize output data
             # skip header and title
             f.readline()
@@ -173,7 +173,7 @@ class VTKFile(File):
                 if len(values.shape) == 2 and values.shape[1] == 2:
                     data[k] = pad(data[k])
 
-        with open(filename, "wb") as f:
+        with open(self.filename, "wb") as f:
             f.write(b"# vtk DataFile Version 4.2\n")
             f.write("written \n".encode("utf-8"))
             f.write(("BINARY\n" if binary else "ASCII\n").encode("utf-8"))
-- 
2.43.0


From ca612f9f7a1e5b30ec07305273e0a33b5f1ab230 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:20 +0000
Subject: [PATCH 052/149] fix: VTK structured points with scalar fields or
 tensors cannot be read

---
 weio/vtk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 848bca1..fe2b4a3 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -140,7 +140,7 @@ class VTKFile(File):
             # We provide point_data_grid, corresponds to point_data but reshaped
             for k,PD in self.point_data.items():
                 # NOTE: tested foe len(y)=1, len(z)=1
-                self.point_data_grid[k]=PD.reshape(len(self.xp_grid), len(self.yp_grid), len(self.zp_grid),PD.shape[1], order='F')
+                self.point_data_grid[k]=PD.reshape((len(self.xp_grid), len(self.yp_grid), len(self.zp_grid)) + (PD.shape[1:] or (1,)), order='F')
 
 
     def write(self, filename=None, binary=True):
-- 
2.43.0


From 4db0c14440db5e95181f0f691291a6090e4bfb5a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:20 +0000
Subject: [PATCH 053/149] fix: writing a VTK file changes the data of the
 object

---
 weio/vtk_file.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index fe2b4a3..417c010 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -163,15 +163,12 @@ class VTKFile(File):
         else:
             points = self.points
 
-        if self.point_data:
-            for name, values in self.point_data.items():
-                if len(values.shape) == 2 and values.shape[1] == 2:
-                    self.point_data[name] = pad(values)
+        def padded(values):
+            return pad(values) if len(values.shape) == 2 and values.shape[1] == 2 else values
 
-        for name, data in self.cell_data.items():
-            for k, values in enumerate(data):
-                if len(values.shape) == 2 and values.shape[1] == 2:
-                    data[k] = pad(data[k])
+        # NOTE: the data of the object are not modified
+        point_data = {name: padded(values) for name, values in self.point_data.items()}
+        cell_data  = {name: [padded(values) for values in data] for name, data in self.cell_data.items()}
 
         with open(self.filename, "wb") as f:
             f.write(b"# vtk DataFile Version 4.2\n")
@@ -184,16 +181,16 @@ class VTKFile(File):
             _write_cells(f, self.cells, binary)
 
             # write point data
-            if self.point_data:
+            if point_data:
                 num_points = self.points.shape[0]
                 f.write("POINT_DATA {}\n".format(num_points).encode("utf-8"))
-                _write_field_data(f, self.point_data, binary)
+                _write_field_data(f, point_data, binary)
 
             # write cell data
-            if self.cell_data:
+            if cell_data:
                 total_num_cells = sum(len(c.data) for c in self.cells)
                 f.write("CELL_DATA {}\n".format(total_num_cells).encode("utf-8"))
-                _write_field_data(f, self.cell_data, binary)
+                _write_field_data(f, cell_data, binary)
 
 
     def __repr__(self):
-- 
2.43.0


From cdb1d6b7c3c81000abcd5c3f58e032157c751485 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:20 +0000
Subject: [PATCH 054/149] fix: VTK files written with tensors are corrupt

---
 weio/vtk_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 417c010..40c01d7 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -1279,6 +1279,8 @@ def _write_field_data(f, data, binary):
     for name, values in data.items():
         if isinstance(values, list):
             values = numpy.concatenate(values)
+        if len(values.shape) > 2: # e.g. tensors
+            values = values.reshape(values.shape[0], -1)
         if len(values.shape) == 1:
             num_tuples = values.shape[0]
             num_components = 1
-- 
2.43.0


From 4b0091f61d4b9e573667678b8cb3026870ce84a2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:20 +0000
Subject: [PATCH 055/149] fix: VTK data after a lookup table or color scalars
 are misread

---
 weio/vtk_file.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 40c01d7..d2d0ee6 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -769,18 +769,21 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        numpy.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
+        num_rgba = int(info.split[2]) * 4
+        if info.is_ascii:
+            numpy.fromfile(f, count=num_rgba, sep=" ", dtype=float)
+        else:
+            numpy.fromfile(f, count=num_rgba, dtype=numpy.ubyte)
         # rgba = data.reshape((info.num_items, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
         num_items = info.num_items
-        dtype = numpy.ubyte
         if info.is_ascii:
-            dtype = float
-        numpy.fromfile(f, count=num_items * nValues, dtype=dtype)
+            numpy.fromfile(f, count=num_items * nValues, sep=" ", dtype=float)
+        else:
+            numpy.fromfile(f, count=num_items * nValues, dtype=numpy.ubyte)
 
 
 def _read_subsection(f, info):
-- 
2.43.0


From b3f938a5097d09c4b6ec4794b92fb8ade43ea3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:20:20 +0000
Subject: [PATCH 056/149] fix: cell data of VTK files with polygons are lost

---
 weio/vtk_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index d2d0ee6..f6c2c33 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -1106,7 +1106,6 @@ def translate_cells(data, types, cell_data_raw):
         if not numpy.all(numnodes == data[offsets]):
             raise ReadError()
 
-        # TODO: cell_data
         for idx, vtk_cell_type in enumerate(types):
             start = offsets[idx] + 1
             cell_idx = start + _vtk_to_meshio_order(
@@ -1126,6 +1125,9 @@ def translate_cells(data, types, cell_data_raw):
         # convert data to numpy arrays
         for k, c in enumerate(cells):
             cells[k] = CellBlock(c.type, numpy.array(c.data))
+        ends = numpy.cumsum([len(c.data) for c in cells])
+        for name, d in cell_data_raw.items():
+            cell_data[name] = numpy.split(d, ends[:-1])
     else:
         # Deduct offsets from the cell types. This is much faster than manually going
         # through the data array. Slight disadvantage: This doesn't work for cells with
-- 
2.43.0


From 714124d9a58675fc8a08b132c3bd37885a17910f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:36:19 +0000
Subject: [PATCH 057/149] fix: Tecplot titles gain an equal sign each time they
 are written

---
 weio/tecplot_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 1c9aa2d..7774931 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -45,7 +45,7 @@ def _process_merged_line(line, section, dict_out):
     n = len(section)
     line = line[n:].strip()
     if section=='title':
-        dict_out[section]=line
+        dict_out[section]=line[1:].strip() if line.startswith('=') else line
     elif section=='variables':
         line = line.replace('=','').strip()
         line = line.replace(',',' ').strip()
-- 
2.43.0


From 1d4f7d72dd464258402f09cc52e6e3c720ba686a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:36:19 +0000
Subject: [PATCH 058/149] fix: Tecplot data are truncated and long rows are
 split when written

---
 weio/tecplot_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 7774931..a83627a 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -8,6 +8,7 @@ Part of weio library: https://github.com/ebranlard/weio
 import pandas as pd
 import numpy as np
 import os
+import sys
 import struct
 
 try:
@@ -199,7 +200,9 @@ class TecplotFile(File):
             # Data
             if 'data' in self.keys():
                 for row in self['data']:
-                    srow = np.array2string(row, edgeitems=0, separator=' ', precision=precision)
+                    # NOTE: all digits are written when no precision is given, and all values on one line
+                    floatmode = 'unique' if precision is None else 'maxprec'
+                    srow = np.array2string(np.asarray(row), separator=' ', precision=precision, floatmode=floatmode, max_line_width=np.inf, threshold=sys.maxsize)
                     f.write(srow[1:-1]+'\n')
 
 
-- 
2.43.0


From ec12031692553e0cc85fd02a3906ea89b38b08bd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:36:51 +0000
Subject: [PATCH 059/149] fix: Tecplot zones and auxiliary data are mixed up
 when read or written

---
 weio/tecplot_file.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index a83627a..0943c03 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -8,6 +8,7 @@ Part of weio library: https://github.com/ebranlard/weio
 import pandas as pd
 import numpy as np
 import os
+import re
 import sys
 import struct
 
@@ -64,8 +65,8 @@ def _process_merged_line(line, section, dict_out):
     elif section=='datasetauxdata':
         if section not in dict_out.keys():
             dict_out[section]={} # initialixe an empty directory
-        sp    = line.split('=')
-        key   = sp[0]
+        sp    = line.split('=', 1)
+        key   = sp[0].strip()
         value = sp[1].replace('"','').strip()
         if is_number(value):
             value=float(value)
@@ -74,12 +75,11 @@ def _process_merged_line(line, section, dict_out):
     elif section=='zone':
         if section not in dict_out.keys():
             dict_out[section]={} # initialixe an empty directory
-        sp    = line.split('=')
-        key   = sp[0]
-        value = sp[1].replace('"','').strip()
-        if is_number(value):
-            value=float(value)
-        dict_out[section][key]=value
+        for key, value in re.findall(r'(\w[\w.]*)\s*=\s*("[^"]*"|\([^)]*\)|[^\s,]+)', line):
+            value = value.replace('"','').strip()
+            if is_number(value):
+                value=float(value)
+            dict_out[section][key]=value
         
     else:
         print('!!! Reading of section not implemented:')
@@ -196,7 +196,11 @@ class TecplotFile(File):
             f.write('VARIABLES = ' + ','.join(['"{}"'.format(col) for col in self['variables'] ]) + '\n')
             for k in Keywords[2:]:
                 if k in self.keys():
-                    f.write('{} = {}\n'.format(k,self[k]))
+                    if isinstance(self[k], dict):
+                        for kk,v in self[k].items():
+                            f.write('{} {}="{}"\n'.format(k.upper(), kk, v))
+                    else:
+                        f.write('{} {}\n'.format(k.upper(), self[k]))
             # Data
             if 'data' in self.keys():
                 for row in self['data']:
-- 
2.43.0


From e31fbe5338ac8de9c64e4735a304402d545871ed Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:36:51 +0000
Subject: [PATCH 060/149] fix: Tecplot variable names with commas or separated
 by several blanks are mixed up

---
 weio/tecplot_file.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 0943c03..97fc9a7 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -49,18 +49,12 @@ def _process_merged_line(line, section, dict_out):
     if section=='title':
         dict_out[section]=line[1:].strip() if line.startswith('=') else line
     elif section=='variables':
-        line = line.replace('=','').strip()
-        line = line.replace(',',' ').strip()
-        line = line.replace('  ',' ').strip()
-        line = line.replace('[','_[').strip()
-        line = line.replace('(','_(').strip()
-        line = line.replace('__','_').strip()
+        line = line[1:].strip() if line.startswith('=') else line
         if line.find('"')==0:
-            line = line.replace('" "',',')
-            line = line.replace('"','')
-            sp=line.split(',')
+            sp=re.findall('"([^"]*)"', line)
         else:
-            sp=line.split()
+            sp=line.replace(',',' ').split()
+        sp=[s.replace('[','_[').replace('(','_(').replace('__','_').strip() for s in sp]
         dict_out[section]=sp
     elif section=='datasetauxdata':
         if section not in dict_out.keys():
-- 
2.43.0


From db466263033eff0424a70b1bf72b44d2bb4daa77 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:36:51 +0000
Subject: [PATCH 061/149] fix: Tecplot files with a single row or an empty
 line, or read from the object filename, are not read

---
 weio/tecplot_file.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 97fc9a7..941e613 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -96,13 +96,14 @@ def read_tecplot(filename, dict_out={}):
         dfs = []  # list of dataframes
         iline=0
         while True:
-            line= f.readline().strip()
+            line= f.readline()
             iline+=1
             if not line:
                 break
-            l=line.lower().strip()
-            # Comment
-            if l[0]=='#':
+            line=line.strip()
+            l=line.lower()
+            # Empty line or comment
+            if len(l)==0 or l[0]=='#':
                 continue
             new_section = [k for k in Keywords if l.find(k)==0 ]
 
@@ -129,7 +130,7 @@ def read_tecplot(filename, dict_out={}):
                         _process_merged_line(merged_line, current_section, dict_out)
                     # --- Special case of numerical values outside of zone
                     f.close()
-                    M = np.loadtxt(filename, skiprows = iline-1)
+                    M = np.loadtxt(filename, skiprows = iline-1, ndmin=2)
                     if M.shape[1]!=len(dict_out['variables']):
                         raise BrokenFormatError('Number of columns of data does not match number of variables')
                     dict_out['data']=M
@@ -169,7 +170,7 @@ class TecplotFile(File):
             raise EmptyFileError('File is empty:',self.filename)
 
         try:
-            read_tecplot(filename,self)
+            read_tecplot(self.filename,self)
         except BrokenFormatError:
             raise 
         except WrongFormatError:
-- 
2.43.0


From 7b3f532f54599be38a8ec701dd87c125a4613dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:36:51 +0000
Subject: [PATCH 062/149] fix: read_tecplot returns the content of files read
 before

---
 weio/tecplot_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 941e613..fc1f9b5 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -80,7 +80,7 @@ def _process_merged_line(line, section, dict_out):
         print('Processing section {}:'.format(section),line)
         dict_out[section]=line
 
-def read_tecplot(filename, dict_out={}):
+def read_tecplot(filename, dict_out=None):
     """ Reads a tecplot file
     Limited support:
        - title optional
@@ -89,6 +89,8 @@ def read_tecplot(filename, dict_out={}):
     For now, assumes that only one section of numerical data is present
     """
 
+    if dict_out is None:
+        dict_out={}
     merged_line=''
     current_section=''
     variables=[]
-- 
2.43.0


From 75626e30ca8edcdc9775b0815a34b05783e96e16 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:37:23 +0000
Subject: [PATCH 063/149] fix: ROSCO performance files cannot be written

---
 weio/rosco_performance_file.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 18deea1..0feab84 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -4,6 +4,7 @@ Input/output class for the ROSCO performance (Cp,Ct,Cq) fileformat
 import numpy as np
 import pandas as pd
 import os
+import datetime
 
 try:
     from .file import File, WrongFormatError, BrokenFormatError
@@ -188,19 +189,19 @@ def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, Turbi
     file = open(txt_filename,'w')
     # Headerlines
     file.write('# ----- Rotor performance tables for the {} wind turbine ----- \n'.format(TurbineName))
-    file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(now.strftime('%b-%d-%y')))
+    file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(datetime.datetime.now().strftime('%b-%d-%y')))
 
     # Pitch angles, TSR, and wind speed
     file.write('# Pitch angle vector, {} entries - x axis (matrix columns) (deg)\n'.format(len(pitch)))
     for i in range(len(pitch)):
-        file.write('{:0.4}   '.format(pitch[i]))
+        file.write('{:0.6g}   '.format(pitch[i]))
     file.write('\n# TSR vector, {} entries - y axis (matrix rows) (-)\n'.format(len(TSR)))
     for i in range(len(TSR)):
-        file.write('{:0.4}    '.format(TSR[i]))
+        file.write('{:0.6g}    '.format(TSR[i]))
     if WS is not None:
         file.write('\n# Wind speed vector - z axis (m/s)\n')
         for i in range(len(WS)):
-            file.write('{:0.4}    '.format(WS[i]))
+            file.write('{:0.6g}    '.format(WS[i]))
         file.write('\n')
     
     # Cp
-- 
2.43.0


From 9636c3610cab8ac47440ff89fcc2ef4f12112f3b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:38:14 +0000
Subject: [PATCH 064/149] fix: empty files raise a NameError in some readers

---
 weio/bmodes_out_file.py        | 2 +-
 weio/cactus_element_file.py    | 2 +-
 weio/fast_input_file.py        | 4 +++-
 weio/raawmat_file.py           | 2 +-
 weio/rosco_performance_file.py | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/weio/bmodes_out_file.py b/weio/bmodes_out_file.py
index 9022ccf..ca6f705 100644
--- a/weio/bmodes_out_file.py
+++ b/weio/bmodes_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/cactus_element_file.py b/weio/cactus_element_file.py
index b899787..5173181 100644
--- a/weio/cactus_element_file.py
+++ b/weio/cactus_element_file.py
@@ -3,7 +3,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 5ff972e..9135892 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -8,9 +8,11 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     # --- Allowing this file to be standalone..
+    class EmptyFileError(Exception):
+        pass
     class WrongFormatError(Exception):
         pass
     class BrokenFormatError(Exception):
diff --git a/weio/raawmat_file.py b/weio/raawmat_file.py
index fc5661e..dc7d063 100644
--- a/weio/raawmat_file.py
+++ b/weio/raawmat_file.py
@@ -111,7 +111,7 @@ def matfile(path_file,output='pandas',path_key=None):
         return ds
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 0feab84..c308cd2 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -7,7 +7,7 @@ import os
 import datetime
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
-- 
2.43.0


From 260b5637ec5540cd79af3c09b3d1fbfb339e8c9b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:39:11 +0000
Subject: [PATCH 065/149] fix: incomplete ROSCO performance tables are accepted
 or raise unrelated errors

---
 weio/rosco_performance_file.py | 37 ++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index c308cd2..03f637e 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -132,6 +132,21 @@ def load_from_txt(txt_filename):
     pitch = None
     TSR   = None
     WS    = None
+    Cp    = None
+    Ct    = None
+    Cq    = None
+
+    def readTable(pfile):
+        if pitch is None or TSR is None:
+            raise WrongFormatError('This does not appear to be a ROSCO performance file, Pitch or TSR vector not found')
+        pfile.readline()
+        M = np.empty((len(TSR),len(pitch)))
+        for tsr_i in range(len(TSR)):
+            row = np.array([float(x) for x in pfile.readline().strip().split()])
+            if len(row)!=len(pitch):
+                raise BrokenFormatError('Wrong number of columns in table of ROSCO performance file {}'.format(txt_filename))
+            M[tsr_i] = row
+        return M
 
     with open(txt_filename) as pfile:
         for iline, line in enumerate(pfile):
@@ -149,29 +164,25 @@ def load_from_txt(txt_filename):
             
             # Read Power Coefficients
             elif 'Power' in line:
-                pfile.readline()
-                Cp = np.empty((len(TSR),len(pitch)))
-                for tsr_i in range(len(TSR)):
-                    Cp[tsr_i] = np.array([float(x) for x in pfile.readline().strip().split()])
+                Cp = readTable(pfile)
             
             # Read Thrust Coefficients
             elif 'Thrust' in line:
-                pfile.readline()
-                Ct = np.empty((len(TSR),len(pitch)))
-                for tsr_i in range(len(TSR)):
-                    Ct[tsr_i] = np.array([float(x) for x in pfile.readline().strip().split()])
+                Ct = readTable(pfile)
 
             # Read Torque Coefficients
             elif 'Torque' in line:
-                pfile.readline()
-                Cq = np.empty((len(TSR),len(pitch)))
-                for tsr_i in range(len(TSR)):
-                    Cq[tsr_i] = np.array([float(x) for x in pfile.readline().strip().split()])
+                Cq = readTable(pfile)
 
             if pitch is None and iline>10:
                 raise WrongFormatError('This does not appear to be a ROSCO performance file, Pitch vector not found')
 
-        return pitch, TSR, WS, Cp, Ct, Cq
+    if pitch is None or TSR is None:
+        raise WrongFormatError('This does not appear to be a ROSCO performance file, Pitch or TSR vector not found')
+    if Cp is None or Ct is None or Cq is None:
+        raise BrokenFormatError('Missing table in ROSCO performance file {}'.format(txt_filename))
+
+    return pitch, TSR, WS, Cp, Ct, Cq
 
 
 def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, TurbineName=''):
-- 
2.43.0


From 826fa2897936d9028b6ff5b846d49b02283a9efd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:39:11 +0000
Subject: [PATCH 066/149] fix: HAWCStab2 files that are wrong or broken, or
 have a single row, raise unrelated errors

---
 weio/hawcstab2_ind_file.py | 8 ++++----
 weio/hawcstab2_pwr_file.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 3d41940..368eb57 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -12,7 +12,7 @@ standard_library.install_aliases()
 import os
 import re
 
-from .file import File, WrongFormatError
+from .file import File, WrongFormatError, BrokenFormatError
 import numpy as np
 import pandas as pd
 
@@ -32,7 +32,7 @@ class HAWCStab2IndFile(File):
         with open(self.filename,'r',encoding=self.encoding) as f:
             header = f.readline().strip()
         if len(header)<=0 or header[0]!='#':
-            raise WrongFormatError('Ind File {}: header line does not start with `#`.'.format(self.filename)+e.args[0])
+            raise WrongFormatError('Ind File {}: header line does not start with `#`.'.format(self.filename))
         # Extracting column names
         header       = '00'+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
@@ -48,12 +48,12 @@ class HAWCStab2IndFile(File):
 
         # Reading numerical data
         try:
-            self.data = np.loadtxt(self.filename, skiprows=1)
+            self.data = np.loadtxt(self.filename, skiprows=1, ndmin=2)
         except Exception as e:    
             raise BrokenFormatError('Ind File {}: '.format(self.filename)+e.args[0])
 
         if self.data.shape[1]!=len(cols):
-            raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
         # Extracting wind speed from filename 
         self.wsp = float(self.filename.lower().split('_')[-1].rstrip('.ind').lstrip('u'))/1000
diff --git a/weio/hawcstab2_pwr_file.py b/weio/hawcstab2_pwr_file.py
index add7a22..353566c 100644
--- a/weio/hawcstab2_pwr_file.py
+++ b/weio/hawcstab2_pwr_file.py
@@ -10,7 +10,7 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 
-from .file import File, WrongFormatError
+from .file import File, WrongFormatError, BrokenFormatError
 import numpy as np
 import pandas as pd
 
@@ -30,7 +30,7 @@ class HAWCStab2PwrFile(File):
         with open(self.filename,'r',encoding=self.encoding) as f:
             header = f.readline().strip()
         if len(header)<=0 or header[0]!='#':
-            raise WrongFormatError('Pwr File {}: header line does not start with `#`'.format(self.filename)+e.args[0])
+            raise WrongFormatError('Pwr File {}: header line does not start with `#`'.format(self.filename))
         # Extracting column names
         header       = '0 '+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
@@ -41,12 +41,12 @@ class HAWCStab2PwrFile(File):
         self.colNames=cols
         # Reading numerical data
         try:
-            self.data = np.loadtxt(self.filename, skiprows=1)
+            self.data = np.loadtxt(self.filename, skiprows=1, ndmin=2)
         except Exception as e:    
             raise BrokenFormatError('Pwr File {}: '.format(self.filename)+e.args[0])
 
         if self.data.shape[1]!=len(cols):
-            raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
     #def _write(self):
         #self.data.to_csv(self.filename,sep=self.false,index=False)
-- 
2.43.0


From bc154b7a15758fca00dc316100c11075f8c3a63f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 067/149] fix: TDMS files cannot be read with versions 1 and
 above of nptdms

---
 weio/tdms_file.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/weio/tdms_file.py b/weio/tdms_file.py
index d05e1a9..d0ec8c2 100644
--- a/weio/tdms_file.py
+++ b/weio/tdms_file.py
@@ -18,15 +18,12 @@ class TDMSFile(File):
         except:
             raise Exception('Install the library nptdms to read this file')
 
-        fh = TdmsFile(self.filename, read_metadata_only=False)
-        channels_address = list(fh.objects.keys())
-        channels_address = [ s.replace("'",'') for s in channels_address]
-        channel_keys= [ s.split('/')[1:]  for s in channels_address if len(s.split('/'))==3]
+        fh = TdmsFile(self.filename)
+        channels = [channel for group in fh.groups() for channel in group.channels()]
         # --- Setting up list of signals and times
         signals=[]
         times=[]
-        for i,ck in enumerate(channel_keys):
-            channel = fh.object(ck[0],ck[1])
+        for channel in channels:
             signals.append(channel.data)
             times.append  (channel.time_track())
 
@@ -47,7 +44,7 @@ class TDMSFile(File):
         time =times[0]
         signals = [time]+signals
         M = np.column_stack(signals)
-        colnames = ['Time_[s]'] + [ck[1] for ck in channel_keys]
+        colnames = ['Time_[s]'] + [channel.name for channel in channels]
         self['data'] =  pd.DataFrame(data = M, columns=colnames)
 
 #     def toString(self):
-- 
2.43.0


From 84f4c5b1aec02f34d9a12dff8156271c5af45f36 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 068/149] fix: CACTUS results without element data, or
 converted twice, raise errors

---
 weio/cactus_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index 7745a39..cec327a 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -183,7 +183,8 @@ class CactusFile(File):
     def timeDataToOpenFAST(self, df):
         """ Convert to similar labels as OpenFAST"""
         if df is None:
-            return None
+            return None, 0
+        df = df.copy()
         nRot      = self['configinputs']['nr']
         nPerRot   = self['configinputs']['nti']
         TSR       = self.TSR
@@ -270,7 +271,7 @@ class CactusFile(File):
     def elemDataToOpenFAST(self, dfElem,  df, c=0, dfDS=None, alphaSign=-1):
         """ Convert to similar lables as openfast """
         if dfElem is None:
-            return df
+            return df, c
 
         U=self.U
         R=self.R
@@ -371,6 +372,8 @@ class CactusFile(File):
     def toDataFrame(self, format='OpenFAST', alphaSign=-1):
         # ---
         df,c = self.timeDataToOpenFAST(df = self['dfTime'])
+        if df is None:
+            return None
         df,c = self.elemDataToOpenFAST(dfElem=self['dfElem'],  df=df, c=c, dfDS=self['dfDS'], alphaSign=alphaSign)
         return df
 
-- 
2.43.0


From 1459640e0867dd07043edb9ca58d4c70bd56a834 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 069/149] fix: HAWCStab2 induction files are not read if their
 name does not end with _u and .ind

---
 weio/hawcstab2_ind_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 368eb57..7709007 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -56,7 +56,11 @@ class HAWCStab2IndFile(File):
             raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
         # Extracting wind speed from filename 
-        self.wsp = float(self.filename.lower().split('_')[-1].rstrip('.ind').lstrip('u'))/1000
+        basename = os.path.splitext(os.path.basename(self.filename))[0].lower()
+        try:
+            self.wsp = float(basename.split('_')[-1].lstrip('u'))/1000
+        except ValueError:
+            self.wsp = np.nan
 
     def _toDataFrame(self):
         key = '{:s} - ws={:06.3f}'.format(self.type,self.wsp)
-- 
2.43.0


From 686e8c53b8abe652d99ce38c54eefe985316ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:45:50 +0000
Subject: [PATCH 070/149] fix: values of CSV or HAWCStab2 Campbell files with a
 single line are split at every blank

---
 weio/csv_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index d704e49..8150df0 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -158,7 +158,8 @@ class CSVFile(File):
             try:
                 with open(self.filename,'r',encoding=self.encoding) as f:
                     dummy=[next(f).strip() for x in range(iStartLine)]
-                    head=[next(f).strip() for x in range(2)]
+                    head=[next(f).strip()]
+                    head.append(next(f,head[0]).strip()) # NOTE: there might be only one line
                 # comma, semi columns or tab
                 if head[1].find(',')>=0:
                     self.sep=','
-- 
2.43.0


From b5638ae8108f54130dd4dd6d4dce3678c9dda9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:48:24 +0000
Subject: [PATCH 071/149] fix: writing a linearization file replaces it by an
 empty file

---
 weio/fast_linearization_file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 374d432..105457b 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -153,8 +153,7 @@ class FASTLinearizationFile(File):
         return s
 
     def _write(self):
-        with open(self.filename,'w') as f:
-            f.write(self.toString())
+        raise NotImplementedError('Writing of linearization files is not implemented')
 
     def short_descr(self,slist):
         def shortname(s):
-- 
2.43.0


From 66a8328e154643f75fbe3b4d4bfedeada4b0bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:48:24 +0000
Subject: [PATCH 072/149] fix: truncated linearization files are accepted

---
 weio/fast_linearization_file.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 105457b..e543d77 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -85,14 +85,15 @@ class FASTLinearizationFile(File):
                     Var['Description'].append(' '.join(sp[iRot+1:]).strip())
                 if i>=n-1:
                     break
+            if len(OP)!=n:
+                raise BrokenFormatError('Wrong number of operating points in file {}'.format(self.filename))
             return OP, Var
 
         def readMat(fid, n, m):
             vals=[f.readline().strip().split() for i in np.arange(n)]
-#             try:
-            return np.array(vals).astype(float)
-#             except ValueError:
-#                 import pdb; pdb.set_trace()
+            if any([len(v)!=m for v in vals]):
+                raise BrokenFormatError('Wrong number of rows or columns in a matrix of file {}'.format(self.filename))
+            return np.array(vals).astype(float).reshape((n,m))
 
         # Reading 
         with open(self.filename, 'r', errors="surrogateescape") as f:
-- 
2.43.0


From 05c0865890e5ab0d4dee0ae78c355b36ca7429c3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:48:24 +0000
Subject: [PATCH 073/149] fix: the unit deg/s of linearization outputs is lost

---
 weio/fast_linearization_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index e543d77..85d3186 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -172,6 +172,7 @@ class FASTLinearizationFile(File):
             s = s.replace('(rad/s^2)', '_[rad/s^2]'  );
             s = s.replace('(m/s^2)' , '_[m/s^2]');
             s = s.replace('(deg/s^2)','_[deg/s^2]');
+            s = s.replace('(deg/s)' , '_[deg/s]');
             s = s.replace('(m)'     , '_[m]'    );
             s = s.replace(', m/s/s','_[m/s^2]');
             s = s.replace(', m/s^2','_[m/s^2]');
-- 
2.43.0


From da47dd95b62367aa6b2b117a1ae2047e70769aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:51:09 +0000
Subject: [PATCH 074/149] fix: modes and JSON of SubDyn summary files are those
 of the last file read, and JSON changes the elements

---
 weio/fast_summary_file.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index 86a75f2..ce4a88d 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -154,9 +154,9 @@ def readSubDynSum(self):
         """ return Guyan and CB modes"""
         if maxDisp is None:
             #compute max disp such as it's 10% of maxdimension
-            dx = np.max(self['X'])-np.min(self['X'])
-            dy = np.max(self['Y'])-np.min(self['Y'])
-            dz = np.max(self['Z'])-np.min(self['Z'])
+            dx = np.max(data['X'])-np.min(data['X'])
+            dy = np.max(data['Y'])-np.min(data['Y'])
+            dz = np.max(data['Z'])-np.min(data['Z'])
             maxDisp = np.max([dx,dy,dz])*0.1
 
         # NOTE: DOF have been reindexed -1
@@ -185,8 +185,8 @@ def readSubDynSum(self):
 
         dispGy, posGy, _, dispCB, posCB, _ = data.getModes()
 
-        Nodes    = self['Nodes']
-        Elements = self['Elements']
+        Nodes    = data['Nodes']
+        Elements = data['Elements'].copy()
         Elements[:,0]-=1
         Elements[:,1]-=1
         Elements[:,2]-=1
-- 
2.43.0


From b8571e107ae01f3880f219d0875c7df382d3f020 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:51:09 +0000
Subject: [PATCH 075/149] fix: keys of SubDyn summary files keep trailing
 blanks

---
 weio/mini_yaml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/mini_yaml.py b/weio/mini_yaml.py
index 04269b9..0fb5319 100644
--- a/weio/mini_yaml.py
+++ b/weio/mini_yaml.py
@@ -70,11 +70,11 @@ def yaml_read(filename,dictIn=None):
             continue
         sp=l.split(':')
         if len(sp)==2 and len(sp[1].strip())==0:
-            key=sp[0]
+            key=sp[0].strip()
             array,i=readDashList(i)
             d[key]=array
         elif len(sp)==2:
-            key=sp[0]
+            key=sp[0].strip()
             val=sp[1]
             try:
                 d[key]=int(val)
@@ -84,7 +84,7 @@ def yaml_read(filename,dictIn=None):
                 except:
                     d[key]=val.strip()
         else:
-            raise Exception('Line {:d} has colon, number of splits is {}, which is not supported'.format(len(sp)))
+            raise Exception('Line {:d} has colon, number of splits is {}, which is not supported'.format(i, len(sp)))
     return d
 
 
-- 
2.43.0


From 342926b3410fdaeed5bc06276075688ae1822ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:55:46 +0000
Subject: [PATCH 076/149] fix: mode displacements in JSON of SubDyn summary
 files are not in the order of the nodes

---
 weio/fast_summary_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index ce4a88d..ab8b006 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -183,7 +183,8 @@ def readSubDynSum(self):
 
         """
 
-        dispGy, posGy, _, dispCB, posCB, _ = data.getModes()
+        # NOTE: no sorting, the displacements need to be in the order of the nodes
+        dispGy, posGy, _, dispCB, posCB, _ = data.getModes(sortDim=None)
 
         Nodes    = data['Nodes']
         Elements = data['Elements'].copy()
-- 
2.43.0


From cb798368f4cd0617ab31269f5c7b45b908708c59 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:58:36 +0000
Subject: [PATCH 077/149] fix: connectivity of a graph is not updated when
 nodes or elements are added

---
 weio/tools/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index e924ef1..ecfae59 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -168,13 +168,15 @@ class GraphModel(object):
         self.Modes   = []
         self.Motions = []
         # Optimization variables
-        self._nodeIDs2Elements   = {} # dictionary with key NodeID and value list of ElementID
+        self._nodeIDs2ElementIDs = {} # dictionary with key NodeID and value list of ElementID
         self._nodeIDs2Elements   = {} # dictionary with key NodeID and value list of elements
         self._elementIDs2NodeIDs = {} # dictionary with key ElemID and value list of nodes IDs
         self._connectivity =[]# 
 
     def addNode(self,node):
         self.Nodes.append(node)
+        # Trigger, remove precomputed values related to connectivity:
+        self.connecticityHasChanged()
 
     def addElement(self,elem):
         # Giving nodes to element if these were not provided
@@ -183,6 +185,8 @@ class GraphModel(object):
         if elem.propIDs is not None:
             elem.nodeProps=[self.getNodeProperty(elem.propset, i) for i in elem.propIDs]
         self.Elements.append(elem)
+        # Trigger, remove precomputed values related to connectivity:
+        self.connecticityHasChanged()
 
     # --- Getters
     def getNode(self, nodeID):
-- 
2.43.0


From bb2674017df150fc7666d0074b4ab83e78010bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:58:36 +0000
Subject: [PATCH 078/149] fix: no graph for HydroDyn files with depth or member
 coefficients or marine growth

---
 weio/fast_input_file_graph.py | 2 +-
 weio/tools/graph.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index eccc069..28d6c7c 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -196,7 +196,7 @@ def hydrodynToGraph(hd):
             # MGDpth     MGThck       MGDens
             # (m)        (m)         (kg/m^3)
             prop = Property(ID=ip+1, MGDpth=P[0], MGThck=P[1],  MGDens=P[2])
-            Graph.addMiscProperty('FillGroups',prop)
+            Graph.addMiscProperty('MG',prop)
 
     # --- Nodes
     Nodes     = hd['Joints']
diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index ecfae59..8a9fc95 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -290,7 +290,7 @@ class GraphModel(object):
         self.ElemPropertySets[setname].append(prop)
 
     def addMiscProperty(self, setname, prop):
-        if not isinstance(prop, ElemProperty):
+        if not isinstance(prop, Property):
             print(type(prop))
             raise Exception('Property needs to inherit from Property')
         self.MiscPropertySets[setname].append(prop)
-- 
2.43.0


From d1060b8e24aa29ec1251baf84cd195c6912edf99 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:58:36 +0000
Subject: [PATCH 079/149] fix: axial member coefficients of HydroDyn graphs are
 shifted by one column

---
 weio/fast_input_file_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index 28d6c7c..00d7bd4 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -177,7 +177,7 @@ def hydrodynToGraph(hd):
         Graph.addMiscPropertySet('MemberCoefs')
         for ip,P in enumerate(hd['MemberProp']):
             # MemberID    MemberCd1     MemberCd2    MemberCdMG1   MemberCdMG2    MemberCa1     MemberCa2    MemberCaMG1   MemberCaMG2    MemberCp1     MemberCp2    MemberCpMG1   MemberCpMG2   MemberAxCd1   MemberAxCd2  MemberAxCdMG1 MemberAxCdMG2  MemberAxCa1   MemberAxCa2  MemberAxCaMG1 MemberAxCaMG2  MemberAxCp1  MemberAxCp2   MemberAxCpMG1   MemberAxCpMG2
-            prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCd1=P[14], AxCd2=P[15], axCdMG1=P[16], axCdMG2=P[17], AxCa1=P[18], AxCa2=P[19], AxCaMG1=P[20], AxCaMG2=P[21], AxCp1=P[22], AxCp2=P[23])
+            prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCd1=P[13], AxCd2=P[14], axCdMG1=P[15], axCdMG2=P[16], AxCa1=P[17], AxCa2=P[18], AxCaMG1=P[19], AxCaMG2=P[20], AxCp1=P[21], AxCp2=P[22])
             Graph.addMiscProperty('MemberCoefs',prop)
     # ---
     if 'FillGroups' in hd.keys():
-- 
2.43.0


From 8f8a037a7c12698dc01d6f364fb1df4d8e3b5276 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:58:36 +0000
Subject: [PATCH 080/149] fix: color of HydroDyn graph elements is a tuple of
 one color

---
 weio/fast_input_file_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index 00d7bd4..e115e7d 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -133,9 +133,9 @@ def hydrodynToGraph(hd):
     """
     def type2Color(Pot):
         if Pot:
-            return (0.753,0.05,0.204),  # Pot flow
+            return (0.753,0.05,0.204)  # Pot flow
         else:
-            return (0.753,0.561,0.05),  # Morison
+            return (0.753,0.561,0.05)  # Morison
 
 
     Graph = GraphModel()
-- 
2.43.0


From 33406325401f37f12e419032957f490c60df77ed Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:58:36 +0000
Subject: [PATCH 081/149] fix: moduli of graphs of SubDyn summary files are the
 area and density

---
 weio/fast_input_file_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index e115e7d..0cc5b7d 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -266,7 +266,7 @@ def subdynSumToGraph(data):
         nodeIDs=[int(E[1]),int(E[2])]
         #  shear_[-]       Ixx_[m^4]       Iyy_[m^4]       Jzz_[m^4]          T0_[N]
         D = np.sqrt(E[7]/np.pi)*4 # <<< Approximation basedon area TODO use I as well
-        elem= Element(int(E[0]), nodeIDs, Type=int(E[5]), Area=E[7], rho=E[8], E=E[7], G=E[8], D=D)
+        elem= Element(int(E[0]), nodeIDs, Type=int(E[5]), Area=E[7], rho=E[8], E=E[9], G=E[10], D=D)
         elem.data['object']='cylinder'
         elem.data['color'] = type2Color[int(E[5])]
         Graph.addElement(elem)
-- 
2.43.0


From bffb2c7fd0ea473e494612aa28a7c4d58e9912d2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:58:36 +0000
Subject: [PATCH 082/149] fix: graphs with motions cannot be printed

---
 weio/tools/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index 8a9fc95..f23dafa 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -334,7 +334,7 @@ class GraphModel(object):
         s+='\n'.join(str(m) for m in self.Modes)
         s+='\n- Motions ({}):'.format(len(self.Motions))
         for m in self.Motions:
-            s+='\n> {}\n'.format({k:v for k,v in m.items() if not isintance(v,np.ndarray)})
+            s+='\n> {}\n'.format({k:v for k,v in m.items() if not isinstance(v,np.ndarray)})
         return s
 
     # --------------------------------------------------------------------------------}
-- 
2.43.0


From d6d8d74e076a9e62940efd7acdd6659974a2f73f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:58:36 +0000
Subject: [PATCH 083/149] fix: graphs of elements without property numbers
 cannot be divided

---
 weio/tools/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index f23dafa..9f4b4d1 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -398,7 +398,8 @@ class GraphModel(object):
             e.nodes=[self.getNode(i) for i in e.nodeIDs]
 
         for e in self.Elements:
-            e.nodeProps = [self.getNodeProperty(e.propset, ID) for ID in e.propIDs]
+            if e.propIDs is not None:
+                e.nodeProps = [self.getNodeProperty(e.propset, ID) for ID in e.propIDs]
 
         # Potentially call nodeIDs2ElementIDs etc
 
@@ -444,8 +445,10 @@ class GraphModel(object):
                 maxElemId+=1
                 elem_dict = e.data.copy()
                 # Creating extra properties if necessary
+                propIDs=None
+                propset=None
                 if e.propIDs is not None:
-                    if all(e.propIDs==e.propIDs[0]):
+                    if all([ID==e.propIDs[0] for ID in e.propIDs]):
                         # No need to create a new property
                         propIDs=e.propIDs
                         propset=e.propset
-- 
2.43.0


From 2672c46b5322995fbc76e9bcfb91c38638ce048a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:58:36 +0000
Subject: [PATCH 084/149] fix: nodes of graphs cannot be sorted by their data

---
 weio/tools/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index 9f4b4d1..60fa259 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -478,7 +478,7 @@ class GraphModel(object):
         elif key=='ID':
             values=[n.ID for n in self.Nodes]
         else:
-            values=[n[key] for n in self.Nodes]
+            values=[n.data[key] for n in self.Nodes]
         I= np.argsort(values)
         self.Nodes=[self.Nodes[i] for i in I]
 
-- 
2.43.0


From 4c66574e463ffa81d433c6fb90208d46aac30ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:59:20 +0000
Subject: [PATCH 085/149] fix: no graph for HydroDyn files with depth or member
 coefficients without axial drag

---
 weio/fast_input_file_graph.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index 0cc5b7d..2f063d6 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -170,14 +170,24 @@ def hydrodynToGraph(hd):
         Graph.addMiscPropertySet('DepthCoefs')
         for ip,P in enumerate(hd['DpthProp']):
             # Dpth      DpthCd   DpthCdMG   DpthCa   DpthCaMG       DpthCp   DpthCpMG   DpthAxCd   DpthAxCdMG   DpthAxCa   DpthAxCaMG   DpthAxCp   DpthAxCpMG
-            prop= Property(ID=ip+1, Dpth=P[0], Cd=P[1], CdMG=P[2], Ca=P[3], CaMG=P[4], Cp=P[5], CpMG=P[6], AxCd=P[7], AxCdMG=P[8], AxCa=P[9], AxCaMG=P[10], AxCp=P[11], AxCpMG=P[12])
+            if len(P)==13:
+                prop= Property(ID=ip+1, Dpth=P[0], Cd=P[1], CdMG=P[2], Ca=P[3], CaMG=P[4], Cp=P[5], CpMG=P[6], AxCd=P[7], AxCdMG=P[8], AxCa=P[9], AxCaMG=P[10], AxCp=P[11], AxCpMG=P[12])
+            elif len(P)==11:
+                prop= Property(ID=ip+1, Dpth=P[0], Cd=P[1], CdMG=P[2], Ca=P[3], CaMG=P[4], Cp=P[5], CpMG=P[6], AxCa=P[7], AxCaMG=P[8], AxCp=P[9], AxCpMG=P[10])
+            else:
+                raise NotImplementedError()
             Graph.addMiscProperty('DepthCoefs',prop)
     if 'MemberProp' in hd.keys():
         # Member-based hydro coefficinet
         Graph.addMiscPropertySet('MemberCoefs')
         for ip,P in enumerate(hd['MemberProp']):
             # MemberID    MemberCd1     MemberCd2    MemberCdMG1   MemberCdMG2    MemberCa1     MemberCa2    MemberCaMG1   MemberCaMG2    MemberCp1     MemberCp2    MemberCpMG1   MemberCpMG2   MemberAxCd1   MemberAxCd2  MemberAxCdMG1 MemberAxCdMG2  MemberAxCa1   MemberAxCa2  MemberAxCaMG1 MemberAxCaMG2  MemberAxCp1  MemberAxCp2   MemberAxCpMG1   MemberAxCpMG2
-            prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCd1=P[13], AxCd2=P[14], axCdMG1=P[15], axCdMG2=P[16], AxCa1=P[17], AxCa2=P[18], AxCaMG1=P[19], AxCaMG2=P[20], AxCp1=P[21], AxCp2=P[22])
+            if len(P)==25:
+                prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCd1=P[13], AxCd2=P[14], axCdMG1=P[15], axCdMG2=P[16], AxCa1=P[17], AxCa2=P[18], AxCaMG1=P[19], AxCaMG2=P[20], AxCp1=P[21], AxCp2=P[22])
+            elif len(P)==21:
+                prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCa1=P[13], AxCa2=P[14], AxCaMG1=P[15], AxCaMG2=P[16], AxCp1=P[17], AxCp2=P[18])
+            else:
+                raise NotImplementedError()
             Graph.addMiscProperty('MemberCoefs',prop)
     # ---
     if 'FillGroups' in hd.keys():
-- 
2.43.0


From 650ed567074b8fa47bb3b0af4e2eecd0fedfbb6c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 086/149] fix: CSV objects read further files with the
 separator, names and comments of the first

---
 weio/csv_file.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 8150df0..dc50857 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -57,8 +57,21 @@ class CSVFile(File):
             raise Exception('Provide either `commentChar` or `commentLines` for CSV file types')
         if (len(self.colNames)>0) and (self.colNamesLine is not None):
             raise Exception('Provide either `colNames` or `colNamesLine` for CSV file types')
+        self._detected = {}
         super(CSVFile, self).__init__(filename=filename,**kwargs)
 
+    def read(self, filename=None, **kwargs):
+        keys = ['sep', 'colNames', 'commentChar', 'commentLines', 'colNamesLine']
+        # What was detected in a file read previously does not apply to this file
+        for k, (given, detected) in self._detected.items():
+            if getattr(self,k) is detected:
+                setattr(self, k, given)
+        given = {k:getattr(self,k) for k in keys}
+        try:
+            super(CSVFile, self).read(filename, **kwargs)
+        finally:
+            self._detected = {k:(given[k], getattr(self,k)) for k in keys}
+
     def _read(self):
         COMMENT_CHAR=['#','!',';']
         # --- Detecting encoding
@@ -256,32 +269,33 @@ class CSVFile(File):
 
     def _write(self):
         # --- Safety
-        if self.sep is None:
-            self.sep=','
-        if self.sep==r'\s+' or self.sep=='':
-            self.sep='\t'
+        sep = self.sep
+        if sep is None:
+            sep=','
+        if sep==r'\s+' or sep=='':
+            sep='\t'
         # Missing values need a placeholder when columns are separated by white spaces
-        na_rep = 'NaN' if len(self.sep.strip())==0 else ''
+        na_rep = 'NaN' if len(sep.strip())==0 else ''
         # Write
         if len(self.header)>0:
             # Column names are written below the header, unless they are already part of it, or provided by the user
             colNames = [str(c) for c in self.data.columns]
             namesInHeader = not self.colNamesInFile
-            sep = self.sep
+            sepData = sep
             for l in self.header:
                 if self.commentChar is not None and l.startswith(self.commentChar):
                     l = l[len(self.commentChar):]
-                if [c.strip() for c in colNames] == [c.strip() for c in l.split(self.sep)]:
+                if [c.strip() for c in colNames] == [c.strip() for c in l.split(sep)]:
                     namesInHeader = True
-                elif self.sep=='\t' and colNames == l.split():
+                elif sep=='\t' and colNames == l.split():
                     # names are separated by blanks, so should the values
                     namesInHeader = True
-                    sep = ' '
+                    sepData = ' '
             with open(self.filename, 'w', encoding='utf-8', newline='\n') as f:
                 f.write('\n'.join(self.header)+'\n')
-                self.data.to_csv(f, sep=sep, index=False, header=not namesInHeader, na_rep=na_rep)
+                self.data.to_csv(f, sep=sepData, index=False, header=not namesInHeader, na_rep=na_rep)
         else:
-            self.data.to_csv(self.filename,sep=self.sep,index=False, na_rep=na_rep)
+            self.data.to_csv(self.filename,sep=sep,index=False, na_rep=na_rep)
 
     def __repr__(self):
         s = 'CSVFile: {}\n'.format(self.filename)
-- 
2.43.0


From a93e9920084a4b3d089e9ac1ae7bc413b356d650 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 087/149] fix: FAST input objects that read a file of another
 module remain of the first module

---
 weio/fast_input_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 9135892..abb0b68 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -99,7 +99,10 @@ class FASTInputFile(File):
             return self.basefile
 
     def read(self, filename=None):
-        return self.fixedfile.read(filename)
+        if filename is None:
+            filename = self.filename
+        self._fixedfile = None # NOTE: the dedicated format depends on the file
+        return self.basefile.read(filename)
 
     def write(self, filename=None):
         return self.fixedfile.write(filename)
-- 
2.43.0


From 2862a3dd19b35a5e2b5c4db5523849c945d49733 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 088/149] fix: linearization objects keep matrices of files
 read previously

---
 weio/fast_linearization_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 85d3186..42df445 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -42,6 +42,7 @@ class FASTLinearizationFile(File):
         return 'FAST linearization output'
 
     def _read(self, *args, **kwargs):
+        self.clear()
         self['header']=[]
 
         def extractVal(lines, key):
-- 
2.43.0


From 937ea392fde790ac98a7ea3cb360c8e283732ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 089/149] fix: FLEX documentation objects cannot read several
 files

---
 weio/flex_doc_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index 2953635..715813f 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -21,6 +21,7 @@ class FLEXDocFile(File):
         return 'FLEX WaveKin file'
 
     def _read(self):
+        self.clear()
         with open(self.filename, 'r', errors="surrogateescape") as f:
             line1=f.readline().strip()
             if line1.find('#Program')!=0:
-- 
2.43.0


From 8e67384aba8b3d06fc7612f58a19562c2eb1e118 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 090/149] fix: Tecplot objects keep sections of files read
 previously

---
 weio/tecplot_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index fc1f9b5..f86c157 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -171,6 +171,7 @@ class TecplotFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
+        self.clear()
         try:
             read_tecplot(self.filename,self)
         except BrokenFormatError:
-- 
2.43.0


From 8b3b26e5f48b735c91afe693c8e81bc7f2ba00dc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 091/149] fix: HAWC2 dat objects that have read a BHAWC file
 write further files as BHAWC files

---
 weio/hawc2_dat_file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 6fc59aa..8e626e0 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -41,8 +41,7 @@ class HAWC2DatFile(File):
             self.info['attribute_names'] = res_file.ChInfo[0]
             self.info['attribute_units'] = res_file.ChInfo[1]
             self.info['attribute_descr'] = res_file.ChInfo[2]
-            if res_file.FileFormat=='BHAWC_ASCII':
-                self.bHawc=True
+            self.bHawc = res_file.FileFormat=='BHAWC_ASCII'
         except FileNotFoundError:
             raise
             #raise WrongFormatError('HAWC2 dat File {}:  '.format(self.filename)+' File Not Found:'+e.filename)
-- 
2.43.0


From 16e2145558e3b79907efde5a371721529f66e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 092/149] fix: VTK objects keep data of files read previously

---
 weio/vtk_file.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index f6c2c33..f390253 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -60,6 +60,12 @@ class VTKFile(File):
 
     def __init__(self,filename=None,**kwargs):
         self.filename = None
+        self._init()
+        # Propagate read
+        if filename:
+            self.read(filename=filename,**kwargs)
+
+    def _init(self):
         # For regular grid
         self.xp_grid=None  # location of points
         self.yp_grid=None
@@ -84,11 +90,6 @@ class VTKFile(File):
         self.num_items = 0
         self.section = None
 
-        # Propagate read
-        if filename:
-            self.read(filename=filename,**kwargs)
-
-
     def read(self, filename=None):
         """ read a VTK file """
         if filename:
@@ -100,6 +101,7 @@ class VTKFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
+        self._init() # NOTE: nothing should remain from a previous read
         with open(self.filename, "rb") as f:
             # initialize output data
             # skip header and title
-- 
2.43.0


From 7877622e9533b3122cc7a91c6d95a341c228f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:13:00 +0000
Subject: [PATCH 093/149] fix: FAST elm tables are renamed by toDataFrame and
 cannot be written

---
 weio/fast_output_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index cf11944..13ae4d2 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -116,7 +116,7 @@ class FASTOutputFile(File):
                 f.write('\t'.join(['{:>10s}'.format(c)         for c in self.info['attribute_names']])+'\n')
                 f.write('\t'.join(['{:>10s}'.format('('+u+')') for u in self.info['attribute_units']])+'\n')
                 # TODO better..
-                f.write('\n'.join(['\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]) for y in self.data]))
+                f.write('\n'.join(['\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]) for y in np.asarray(self.data)]))
 
     def _toDataFrame(self):
         if self.info['attribute_units'] is not None:
@@ -124,7 +124,7 @@ class FASTOutputFile(File):
         else:
             cols=self.info['attribute_names']
         if isinstance(self.data, pd.DataFrame):
-            df= self.data
+            df= self.data.copy()
             df.columns=cols
         else:
             df = pd.DataFrame(data=self.data,columns=cols)
-- 
2.43.0


From cb7593985ba3bad75dec268af2cfaf2a81e2f978 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:16:49 +0000
Subject: [PATCH 094/149] fix: all HTC files share the same dictionary of jinja
 tags

---
 weio/wetb/hawc2/htc_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 6848a7e..76db2fd 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -103,7 +103,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
     modelpath = "../"
     initial_comments = None
 
-    def __init__(self, filename=None, modelpath=None, jinja_tags={}):
+    def __init__(self, filename=None, modelpath=None, jinja_tags=None):
         """
         Parameters
         ---------
@@ -122,7 +122,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
 
             self.filename = filename
 
-        self.jinja_tags = jinja_tags
+        self.jinja_tags = {} if jinja_tags is None else jinja_tags
         self.modelpath = modelpath or self.auto_detect_modelpath()
 
         if filename and self.modelpath != "unknown" and not os.path.isabs(self.modelpath):
-- 
2.43.0


From dcfc8c4abca67a869fcd34a21e86e1ce4d1ec1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:18:14 +0000
Subject: [PATCH 095/149] fix: VTK objects keep the number of points of files
 read previously

---
 weio/vtk_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index f390253..980182d 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -88,6 +88,7 @@ class VTKFile(File):
         self.is_ascii = False
         self.split = []
         self.num_items = 0
+        self.num_points = 0
         self.section = None
 
     def read(self, filename=None):
-- 
2.43.0


From 5ba5badfe2c0869086c09e6f73880a3ad0d18a26 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:22:12 +0000
Subject: [PATCH 096/149] fix: VTK objects keep the number of offsets of files
 read previously

---
 weio/vtk_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 980182d..0e1d125 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -89,6 +89,7 @@ class VTKFile(File):
         self.split = []
         self.num_items = 0
         self.num_points = 0
+        self.num_offsets = 0
         self.section = None
 
     def read(self, filename=None):
-- 
2.43.0


From 0434d83acdbf66c5582e2e39eb7a0118f7ddba6d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:22:12 +0000
Subject: [PATCH 097/149] fix: SubDyn summary objects keep keys of files read
 previously

---
 weio/fast_summary_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index ab8b006..cf3c99a 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -58,6 +58,7 @@ class FASTSummaryFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
+        self.clear() # NOTE: nothing should remain from a previous read
         with open(self.filename, 'r', errors="surrogateescape") as fid:
             header= readFirstLines(fid, 4)
         if any(['subdyn' in s.lower() for s in header]):
-- 
2.43.0


From f86429049a76c66daafe03050d97cb4e0bea0693 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:23 +0000
Subject: [PATCH 098/149] fix: fileFormats returns another type when called a
 second time with ignoreErrors

---
 weio/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/__init__.py b/weio/__init__.py
index cc31316..0d2dec4 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -20,6 +20,8 @@ def fileFormats(userpath=None, ignoreErrors=False, verbose=False):
     """
     global _FORMATS
     if _FORMATS is not None:
+        if ignoreErrors:
+            return _FORMATS, []
         return _FORMATS
     # --- Library formats
     from .fast_input_file         import FASTInputFile
-- 
2.43.0


From e4a97f5c92633ef26c3186d147899b3cdb699b8f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:23 +0000
Subject: [PATCH 099/149] fix: an __init__.py in the folder of user formats is
 taken for a format

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index 0d2dec4..1e4be35 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -145,7 +145,7 @@ def userFileClasses(userpath=None, ignoreErrors=False, verbose=True):
         pyfiles = glob.glob(os.path.join(userpath,'*.py'))
         # Loop through files, look for classes of the form ClassNameFile, 
         for f in pyfiles:
-            if f in ['__init__.py']:
+            if os.path.basename(f) in ['__init__.py']:
                 continue
             mod_name = os.path.basename(os.path.splitext(f)[0])
             try:
-- 
2.43.0


From 6a650ddf49e63031d152ce42ead986585705a354 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:23 +0000
Subject: [PATCH 100/149] fix: classes imported by user modules are registered
 instead of the class of the user

---
 weio/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index 1e4be35..5355af3 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -163,7 +163,8 @@ def userFileClasses(userpath=None, ignoreErrors=False, verbose=True):
             for name, obj in inspect.getmembers(module):
                 if inspect.isclass(obj):
                     classname = obj.__name__.lower()
-                    if classname!='file' and classname.find('file')>=0 and classname.find('error')<0:
+                    # NOTE: classes imported by the user module are not user formats
+                    if obj.__module__==module.__name__ and classname!='file' and classname.find('file')>=0 and classname.find('error')<0:
                         if verbose:
                             print('    Found File class with name:',obj.__name__)
                         UserClasses.append(obj)
-- 
2.43.0


From 44db76d0fdc53e1c2f82e75320f121c153fef785 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:23 +0000
Subject: [PATCH 101/149] fix: weio.read ignores the reading options when the
 format is given

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index 5355af3..eed4ed5 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -249,7 +249,7 @@ def read(filename, fileformat=None, **kwargs):
         fileformat,F = detectFormat(filename, **kwargs)
     # Reading the file with the appropriate class if necessary
     if not isinstance(F, fileformat.constructor):
-        F=fileformat.constructor(filename=filename)
+        F=fileformat.constructor(filename=filename, **kwargs)
     return F
 
 
-- 
2.43.0


From d45063a7a95f8409e5937dce55917a0410a52089 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:23 +0000
Subject: [PATCH 102/149] fix: extensions of formats with upper case or special
 characters are never matched

---
 weio/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index eed4ed5..bef1770 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -220,11 +220,12 @@ def detectFormat(filename, **kwargs):
     i = 0 
     while not detected and i<len(formats):
         myformat = formats[i]
-        if ext in myformat.extensions:
+        extensions = [ef.lower() for ef in myformat.extensions] # NOTE: ext is lower case
+        if ext in extensions:
             extMatch = True
         else:
             # Try patterns if present
-            extPatterns = [ef.replace('.','\.').replace('$','\$').replace('*','[.]*') for ef in myformat.extensions if '*' in ef]
+            extPatterns = [re.escape(ef).replace('\\*','.*')+'$' for ef in extensions if '*' in ef]
             if len(extPatterns)>0:
                 extPatMatch = [re.match(pat, ext) is not None for pat in extPatterns]
                 extMatch = any(extPatMatch)
-- 
2.43.0


From 29cd74d6a54bc9f986a467f7f04d25d2e990804f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:23 +0000
Subject: [PATCH 103/149] fix: a user format which refuses a file prevents
 other formats from reading it

---
 weio/file_formats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/file_formats.py b/weio/file_formats.py
index daa5400..82a2b3c 100644
--- a/weio/file_formats.py
+++ b/weio/file_formats.py
@@ -10,7 +10,10 @@ def isRightFormat(fileformat, filename, **kwargs):
         raise
     except WrongFormatError:
         return False,None
-    except:
+    except Exception as e:
+        # NOTE: user formats (see _NEWFILE_TEMPLATE) and standalone files define their own WrongFormatError
+        if any(c.__name__=='WrongFormatError' for c in type(e).__mro__):
+            return False,None
         raise
 
 class FileFormat():
-- 
2.43.0


From 9e41189364edd47cac97780acbfd0b5c87429fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:42:22 +0000
Subject: [PATCH 104/149] fix: TurbSim time series reader prevents other
 readers from reading text files

---
 weio/turbsim_ts_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index b9383bb..5b75bd5 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -26,11 +26,13 @@ class TurbSimTSFile(File):
         with open(self.filename, 'r', errors="surrogateescape") as f:
             for i, line in enumerate(f):
                 if i>nHeaderMax:
-                    raise BrokenFormatError('`nComp` not found in file')
+                    break
                 if line.lower().find('ncomp')>=0:
                     iFirstData=i
                     break
                 self['header'].append(line.strip())
+            if iFirstData<0:
+                raise WrongFormatError('TurbSim time series: `nComp` not found in file {}'.format(self.filename))
             self['nComp'] = int(line.split()[0])
             line          = f.readline().strip()
             nPoints       = int(line.split()[0])
-- 
2.43.0


From c05f194918dd678ac7975d8bb3774db8f3e224d1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:46:25 +0000
Subject: [PATCH 105/149] fix: VTK files with missing values are accepted

---
 weio/vtk_file.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 0e1d125..a2d3352 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -930,15 +930,23 @@ def _generate_points(axis):
     return points
 
 
+def _fromfile(f, count, dtype, sep=""):
+    """ Same as numpy.fromfile, but the `count` values need to be present"""
+    data = numpy.fromfile(f, count=count, dtype=dtype, sep=sep)
+    if len(data) != count:
+        raise ReadError("Read only {} of {} values".format(len(data), count))
+    return data
+
+
 def _read_coords(f, data_type, is_ascii, num_points):
     dtype = numpy.dtype(vtk_to_numpy_dtype_name[data_type])
     if is_ascii:
-        coords = numpy.fromfile(f, count=num_points, sep=" ", dtype=dtype)
+        coords = _fromfile(f, count=num_points, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://www.vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        coords = numpy.fromfile(f, count=num_points, dtype=dtype)
+        coords = _fromfile(f, count=num_points, dtype=dtype)
         line = f.readline().decode("utf-8")
         if line != "\n":
             raise ReadError()
@@ -948,12 +956,12 @@ def _read_coords(f, data_type, is_ascii, num_points):
 def _read_points(f, data_type, is_ascii, num_points):
     dtype = numpy.dtype(vtk_to_numpy_dtype_name[data_type])
     if is_ascii:
-        points = numpy.fromfile(f, count=num_points * 3, sep=" ", dtype=dtype)
+        points = _fromfile(f, count=num_points * 3, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://www.vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        points = numpy.fromfile(f, count=num_points * 3, dtype=dtype)
+        points = _fromfile(f, count=num_points * 3, dtype=dtype)
         line = f.readline().decode("utf-8")
         if line != "\n":
             raise ReadError()
@@ -962,10 +970,10 @@ def _read_points(f, data_type, is_ascii, num_points):
 
 def _read_cells(f, is_ascii, num_items, dtype=numpy.dtype("int32")):
     if is_ascii:
-        c = numpy.fromfile(f, count=num_items, sep=" ", dtype=dtype)
+        c = _fromfile(f, count=num_items, sep=" ", dtype=dtype)
     else:
         dtype = dtype.newbyteorder(">")
-        c = numpy.fromfile(f, count=num_items, dtype=dtype)
+        c = _fromfile(f, count=num_items, dtype=dtype)
         line = f.readline().decode("utf-8")
         if line != "\n":
             raise ReadError()
@@ -974,10 +982,10 @@ def _read_cells(f, is_ascii, num_items, dtype=numpy.dtype("int32")):
 
 def _read_cell_types(f, is_ascii, num_items):
     if is_ascii:
-        ct = numpy.fromfile(f, count=int(num_items), sep=" ", dtype=int)
+        ct = _fromfile(f, count=int(num_items), sep=" ", dtype=int)
     else:
         # binary
-        ct = numpy.fromfile(f, count=int(num_items), dtype=">i4")
+        ct = _fromfile(f, count=int(num_items), dtype=">i4")
         line = f.readline().decode("utf-8")
         # Sometimes, there's no newline at the end
         if line.strip() != "":
@@ -1004,12 +1012,12 @@ def _read_scalar_field(f, num_data, split, is_ascii):
         raise ReadError()
 
     if is_ascii:
-        data = numpy.fromfile(f, count=num_data * num_comp, sep=" ", dtype=dtype)
+        data = _fromfile(f, count=num_data * num_comp, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://www.vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        data = numpy.fromfile(f, count=num_data * num_comp, dtype=dtype)
+        data = _fromfile(f, count=num_data * num_comp, dtype=dtype)
         line = f.readline().decode("utf-8")
         if line != "\n":
             raise ReadError()
@@ -1028,12 +1036,12 @@ def _read_field(f, num_data, split, shape, is_ascii):
     k = reduce((lambda x, y: x * y), shape)
 
     if is_ascii:
-        data = numpy.fromfile(f, count=k * num_data, sep=" ", dtype=dtype)
+        data = _fromfile(f, count=k * num_data, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://www.vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        data = numpy.fromfile(f, count=k * num_data, dtype=dtype)
+        data = _fromfile(f, count=k * num_data, dtype=dtype)
         line = f.readline().decode("utf-8")
         if line != "\n":
             raise ReadError()
@@ -1057,12 +1065,12 @@ def _read_fields(f, num_fields, is_ascii):
         dtype = numpy.dtype(vtk_to_numpy_dtype_name[data_type.lower()])
 
         if is_ascii:
-            dat = numpy.fromfile(f, count=shape0 * shape1, sep=" ", dtype=dtype)
+            dat = _fromfile(f, count=shape0 * shape1, sep=" ", dtype=dtype)
         else:
             # Binary data is big endian, see
             # <https://www.vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
             dtype = dtype.newbyteorder(">")
-            dat = numpy.fromfile(f, count=shape0 * shape1, dtype=dtype)
+            dat = _fromfile(f, count=shape0 * shape1, dtype=dtype)
             line = f.readline().decode("utf-8")
             if line != "\n":
                 raise ReadError()
-- 
2.43.0


From 1b0df201fd9e37c45881762200240aef5de88fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:46:25 +0000
Subject: [PATCH 106/149] fix: HAWC2 ae and pc files with missing rows are
 accepted

---
 weio/wetb/hawc2/ae_file.py | 2 ++
 weio/wetb/hawc2/pc_file.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/weio/wetb/hawc2/ae_file.py b/weio/wetb/hawc2/ae_file.py
index 2521d47..e8257dc 100644
--- a/weio/wetb/hawc2/ae_file.py
+++ b/weio/wetb/hawc2/ae_file.py
@@ -117,6 +117,8 @@ class AEFile(object):
             set_nr, n_rows = [int(v) for v in lines[lptr].split()[:2]]
             lptr += 1
             data = np.array([[float(v) for v in l.split()[:4]] for l in lines[lptr:lptr + n_rows]])
+            if len(data) != n_rows:
+                raise Exception('Only {} of {} rows found for set {}'.format(len(data), n_rows, set_nr))
             self.ae_sets[set_nr] = data
             lptr += n_rows
 
diff --git a/weio/wetb/hawc2/pc_file.py b/weio/wetb/hawc2/pc_file.py
index 83e0a1b..097ae96 100644
--- a/weio/wetb/hawc2/pc_file.py
+++ b/weio/wetb/hawc2/pc_file.py
@@ -45,6 +45,8 @@ class PCFile(object):
                 profile_nr, n_rows, thickness = int(profile_nr), int(n_rows), float(thickness)
                 lptr += 1
                 data = np.array([[float(v) for v in l.split()[:4]] for l in lines[lptr:lptr + n_rows]])
+                if len(data) != n_rows:
+                    raise Exception('Only {} of {} rows found for profile {}'.format(len(data), n_rows, profile_nr))
                 thicknesses.append(thickness)
                 profiles.append(data)
                 lptr += n_rows
-- 
2.43.0


From fd8948884b53ba36c28523692b4f422a3cfb3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 107/149] fix: HAWC2 binary results, the last channel was
 filled with its first scan when the dat file was incomplete

---
 weio/wetb/hawc2/Hawc2io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index c0c0810..7edd413 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -246,7 +246,10 @@ class ReadHawc2(object):
             j = 0
             for i in ChVec:
                 fid.seek(i * self.NrSc * 2, 0)
-                data[:, j] = np.fromfile(fid, 'int16', self.NrSc) * self.ScaleFactor[i]
+                channel = np.fromfile(fid, 'int16', self.NrSc)
+                if len(channel) != self.NrSc:
+                    raise Exception('The dat file is incomplete, {} scans expected, {} found for channel {}'.format(self.NrSc, len(channel), i+1))
+                data[:, j] = channel * self.ScaleFactor[i]
                 j += 1
         return data
 ################################################################################
-- 
2.43.0


From c4631f4f19a78b5369f2ef69bb6d053244c1476a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 108/149] fix: Mann box files which size does not match the
 dimensions were read as if they did

---
 weio/mannbox_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weio/mannbox_file.py b/weio/mannbox_file.py
index 4df52dc..919573f 100644
--- a/weio/mannbox_file.py
+++ b/weio/mannbox_file.py
@@ -119,6 +119,9 @@ class MannBoxFile(File):
             else:
                 raise BrokenFormatError('Reading a Mann box requires the knowledge of the dimensions. The dimensions can be inferred from the filename, for instance: `filebase_1024x32x32.u`. Try renaming your file such that the three last digits are the dimensions in x, y and z.')
         nx,ny,nz=N
+        # NOTE: the file has no header, its size is the only consistency check of the dimensions
+        if os.stat(self.filename).st_size != 4*nx*ny*nz:
+            raise BrokenFormatError('Size of turbulence box ({} bytes) does not match nx x ny x nz ({} x {} x {}, 4 bytes per value): {}'.format(os.stat(self.filename).st_size, nx, ny, nz, self.filename))
 
         def _read_buffered():
             data=np.zeros((nx,ny,nz),dtype=np.float32)
-- 
2.43.0


From feb210360c9122f14d3b02f32b3cc017d9ea3e2e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:08:53 +0000
Subject: [PATCH 109/149] fix: FAST binary files with corrupted sizes took
 gigabytes of memory before being refused

---
 weio/fast_output_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 13ae4d2..7e8ac91 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -205,7 +205,8 @@ def load_binary_output(filename, use_buffer=True):
     """
     def fread(fid, n, type):
         fmt, nbytes = {'uint8': ('B', 1), 'int16':('h', 2), 'int32':('i', 4), 'float32':('f', 4), 'float64':('d', 8)}[type]
-        return struct.unpack(fmt * n, fid.read(nbytes * n))
+        # NOTE: the format is not repeated n times, n may be anything if the file is corrupted
+        return struct.unpack('<{:d}{:s}'.format(n, fmt), fid.read(nbytes * n))
 
     def freadRowOrderTableBuffered(fid, n, type_in, nCols, nOff=0, type_out='float64'):
         """ 
@@ -242,7 +243,7 @@ def load_binary_output(filename, use_buffer=True):
                 nLinesRead = nLinesRead + nLinesToRead
                 nIntRead   = nIntRead   + nIntToRead
         except:
-            raise Exception('Read only %d of %d values in file:' % (nIntRead, n, filename))
+            raise Exception('Read only %d of %d values in file: %s' % (nIntRead, n, filename))
         return data
 
 
-- 
2.43.0


From 10540e0a0114214ce6168ec9f4b7ca1e26259856 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:22:02 +0000
Subject: [PATCH 110/149] fix: the main file of a written deck referred to the
 AeroDyn file as ServoDyn file

---
 weio/fast_input_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 1153ca5..e63f556 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -371,7 +371,7 @@ class FASTInputDeck(dict):
         fst['BDBldFile(3)'] = '"' + os.path.basename(filename_BD) + '"'
         fst['InflowFile']   = '"' + os.path.basename(filename_IW) + '"'
         fst['AeroFile']     = '"' + os.path.basename(filename_AD) + '"'
-        fst['ServoFile']    = '"' + os.path.basename(filename_AD) + '"'
+        fst['ServoFile']    = '"' + os.path.basename(filename_SvD) + '"'
         fst['HydroFile']    = '"' + os.path.basename(filename_HD) + '"'
         fst['SubFile']      = '"' + os.path.basename(filename_SD) + '"'
         fst['MooringFile']  = '"' + os.path.basename(filename_MD) + '"'
-- 
2.43.0


From b2c7d99e15dcb8a130ae6d4d3e27a18c23725b97 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:22:02 +0000
Subject: [PATCH 111/149] fix: SubDyn file of a deck was read when the HydroDyn
 file was requested

---
 weio/fast_input_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index e63f556..db2e66f 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -275,7 +275,7 @@ class FASTInputDeck(dict):
 
             # SubDyn
             if self.fst_vt['Fst']['CompSub'] == 1:
-                self.fst_vt['SubDyn'] = self._read(self.fst_vt['Fst']['SubFile'],'HD')
+                self.fst_vt['SubDyn'] = self._read(self.fst_vt['Fst']['SubFile'],'SD')
 
             # Mooring
             if self.fst_vt['Fst']['CompMooring']==1:
-- 
2.43.0


From 94765e4c46b63e42cfc3d894013bfa900b9c41ea Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:22:45 +0000
Subject: [PATCH 112/149] fix: a deck object that read another deck kept the
 modules of the previous one

---
 weio/fast_input_deck.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index db2e66f..cfaa589 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -47,12 +47,20 @@ class FASTInputDeck(dict):
         else:
             self.readlist = ['Fst']+self.readlist
 
-        self.inputfiles = {}
-
         # --- Harmonization with AeroElasticSE
         self.FAST_ver       = 'OPENFAST'
         self.path2dll       = None   # Path to dll file
 
+        self._reset()
+
+        # Read all inputs files
+        if len(fullFstPath)>0:
+            self.read()
+
+
+    def _reset(self):
+        """ No file read """
+        self.inputfiles = {}
         self.fst_vt={}
         self.fst_vt['description']       = ''            
         self.fst_vt['Fst']               = None
@@ -77,11 +85,8 @@ class FASTInputDeck(dict):
         self.fst_vt['ac_data']           = [] # TODO, how is it stored in WEIS?
 
 
-        self.ADversion=''
-
-        # Read all inputs files
-        if len(fullFstPath)>0:
-            self.read()
+        self.AD        = None
+        self.ADversion = ''
 
 
     def readAD(self, filename=None, readlist=None, verbose=False, key='AeroDyn15'):
@@ -116,6 +121,7 @@ class FASTInputDeck(dict):
             #    self.fst_vt['AeroDynBlade'].append(self._read(bld_file,'ADbld'))
             # Polars
             self.fst_vt['af_data']=[] # TODO add to "AeroDyn"
+            self.fst_vt['ac_data']=[]
             for afi, af_filename in enumerate(self.fst_vt['AeroDyn15']['AFNames']):
                 af_filename = os.path.join(baseDir,af_filename).replace('"','')
                 try: 
@@ -221,6 +227,9 @@ class FASTInputDeck(dict):
         if filename is not None:
             self.filename = filename
 
+        # Forget the files of the deck previously read
+        self._reset()
+
         # Read OpenFAST files
         self.fst_vt['Fst'] = self._read(self.FAST_InputFile, 'Fst')
         if self.fst_vt['Fst'] is None:
@@ -294,8 +303,6 @@ class FASTInputDeck(dict):
         # --- Backward compatibility
         self.fst = self.fst_vt['Fst']
         self.ED  = self.fst_vt['ElastoDyn']
-        if not hasattr(self,'AD'):
-            self.AD = None
         if self.AD is not None:
             self.AD.Bld1 = self.fst_vt['AeroDynBlade']
             self.AD.AF  = self.fst_vt['af_data']
-- 
2.43.0


From 4b446a0d2d69b7f444682b320334e18fe2fa843c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:22:45 +0000
Subject: [PATCH 113/149] fix: the main file of a deck written with a
 `directory` did not refer to the files of this directory

---
 weio/fast_input_deck.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index cfaa589..5dd7db2 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -357,6 +357,12 @@ class FASTInputDeck(dict):
 
         fst = self.fst_vt['Fst']
 
+        def ref(path):
+            # NOTE: references are relative to the main file
+            if path=='none':
+                return '"none"'
+            return '"' + os.path.relpath(path, os.path.dirname(filename) or '.').replace('\\','/') + '"'
+
         # Filenames
         filename_ED     = os.path.join(directory,prefix+'ED'+suffix+'.dat')      if fst['CompElast']>0   else 'none'
         filename_IW     = os.path.join(directory,prefix+'IW'+suffix+'.dat')      if fst['CompInflow']>0  else 'none'
@@ -372,17 +378,17 @@ class FASTInputDeck(dict):
         filename_BD_bld = os.path.join(directory,prefix+'BD_bld'+suffix+'.dat')  if fst['CompElast']>0   else 'none'
         # TODO AD Profiles and OLAF
 
-        fst['EDFile']       = '"' + os.path.basename(filename_ED) + '"'
-        fst['BDBldFile(1)'] = '"' + os.path.basename(filename_BD) + '"'
-        fst['BDBldFile(2)'] = '"' + os.path.basename(filename_BD) + '"'
-        fst['BDBldFile(3)'] = '"' + os.path.basename(filename_BD) + '"'
-        fst['InflowFile']   = '"' + os.path.basename(filename_IW) + '"'
-        fst['AeroFile']     = '"' + os.path.basename(filename_AD) + '"'
-        fst['ServoFile']    = '"' + os.path.basename(filename_SvD) + '"'
-        fst['HydroFile']    = '"' + os.path.basename(filename_HD) + '"'
-        fst['SubFile']      = '"' + os.path.basename(filename_SD) + '"'
-        fst['MooringFile']  = '"' + os.path.basename(filename_MD) + '"'
-        fst['IceFile']      = '"' + os.path.basename(filename_Ice)+ '"'
+        fst['EDFile']       = ref(filename_ED)
+        fst['BDBldFile(1)'] = ref(filename_BD)
+        fst['BDBldFile(2)'] = ref(filename_BD)
+        fst['BDBldFile(3)'] = ref(filename_BD)
+        fst['InflowFile']   = ref(filename_IW)
+        fst['AeroFile']     = ref(filename_AD)
+        fst['ServoFile']    = ref(filename_SvD)
+        fst['HydroFile']    = ref(filename_HD)
+        fst['SubFile']      = ref(filename_SD)
+        fst['MooringFile']  = ref(filename_MD)
+        fst['IceFile']      = ref(filename_Ice)
         fst.write(filename)
 
 
-- 
2.43.0


From 86084ca0dedf4c2741cafdfb43bc83f7a639b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:24:27 +0000
Subject: [PATCH 114/149] fix: decks with AeroDyn14 could not be read or
 written

---
 weio/fast_input_deck.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 5dd7db2..52414d1 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -112,9 +112,13 @@ class FASTInputDeck(dict):
         self.fst_vt[key] = self._read(filename,'AD')
 
         if self.fst_vt[key] is not None:
-            # Blades
-            bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'])
-            self.fst_vt['AeroDynBlade'] = self._read(bld_file,'ADbld')
+            # Blades, NOTE: for AeroDyn14, the blade is defined in the main AeroDyn file
+            if key=='AeroDyn15':
+                bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'])
+                self.fst_vt['AeroDynBlade'] = self._read(bld_file,'ADbld')
+                AFNames = self.fst_vt[key]['AFNames']
+            else:
+                AFNames = self.fst_vt[key]['FoilNm']
             #self.fst_vt['AeroDynBlade'] = []
             #for i in range(3):
             #    bld_file = os.path.join(os.path.dirname(self.fst_vt['Fst']['AeroFile']), self.fst_vt[key]['ADBlFile({})'.format(i+1)])
@@ -122,7 +126,7 @@ class FASTInputDeck(dict):
             # Polars
             self.fst_vt['af_data']=[] # TODO add to "AeroDyn"
             self.fst_vt['ac_data']=[]
-            for afi, af_filename in enumerate(self.fst_vt['AeroDyn15']['AFNames']):
+            for afi, af_filename in enumerate(AFNames):
                 af_filename = os.path.join(baseDir,af_filename).replace('"','')
                 try: 
                     polar = self._read(af_filename, 'AF')
@@ -130,7 +134,7 @@ class FASTInputDeck(dict):
                     polar=None
                     print('[FAIL] reading polar {}'.format(af_filename))
                 self.fst_vt['af_data'].append(polar)
-                if polar is not None:
+                if polar is not None and 'NumCoords' in polar.keys(): # NOTE: not present for AeroDyn14
                     coordFile = polar['NumCoords']
                     if isinstance(coordFile,str):
                         coordFile = coordFile.replace('"','')
@@ -419,7 +423,7 @@ class FASTInputDeck(dict):
             self.fst_vt['InflowWind'].write(filename_IW)
 
         if fst['CompAero']>0:
-            self.fst_vt['AeroDyn15'].write(filename_AD)
+            self.fst_vt['AeroDyn14' if fst['CompAero']==1 else 'AeroDyn15'].write(filename_AD)
             # TODO other files
 
         if fst['CompServo']>0:
-- 
2.43.0


From 21d1dd27985d2d3ef014031d752613c414b2a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:24:27 +0000
Subject: [PATCH 115/149] fix: absolute paths of the AeroDyn blade, profiles,
 and BeamDyn blade were not recognized when the deck uses sub folders

---
 weio/fast_input_deck.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 52414d1..5cbb09c 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -103,9 +103,9 @@ class FASTInputDeck(dict):
 
         if filename is None:
             filename = self.fst_vt['Fst']['AeroFile']
-            baseDir  = os.path.dirname(self.fst_vt['Fst']['AeroFile'])
-        else:
-            baseDir  = os.path.dirname(filename)
+        # NOTE: quotes are removed, otherwise absolute paths are not recognized as such when joined
+        filename = filename.replace('"','')
+        baseDir  = os.path.dirname(filename)
 
         self.verbose  = verbose
 
@@ -114,7 +114,7 @@ class FASTInputDeck(dict):
         if self.fst_vt[key] is not None:
             # Blades, NOTE: for AeroDyn14, the blade is defined in the main AeroDyn file
             if key=='AeroDyn15':
-                bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'])
+                bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'].replace('"',''))
                 self.fst_vt['AeroDynBlade'] = self._read(bld_file,'ADbld')
                 AFNames = self.fst_vt[key]['AFNames']
             else:
@@ -127,7 +127,7 @@ class FASTInputDeck(dict):
             self.fst_vt['af_data']=[] # TODO add to "AeroDyn"
             self.fst_vt['ac_data']=[]
             for afi, af_filename in enumerate(AFNames):
-                af_filename = os.path.join(baseDir,af_filename).replace('"','')
+                af_filename = os.path.join(baseDir,af_filename.replace('"',''))
                 try: 
                     polar = self._read(af_filename, 'AF')
                 except:
@@ -301,7 +301,7 @@ class FASTInputDeck(dict):
                 self.fst_vt['BeamDyn'] = self._read(self.fst_vt['Fst']['BDBldFile(1)'],'BD')
                 if self.fst_vt['BeamDyn'] is not None:
                     # Blades
-                    bld_file = os.path.join(os.path.dirname(self.fst_vt['Fst']['BDBldFile(1)']), self.fst_vt['BeamDyn']['BldFile'])
+                    bld_file = self.BD_bld_relpath
                     self.fst_vt['BeamDynBlade']= self._read(bld_file,'BDbld')
 
         # --- Backward compatibility
-- 
2.43.0


From bc1058a9cd4b7156498c00a618d36a5533591840 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:26:08 +0000
Subject: [PATCH 116/149] fix: names with spaces were cut in lists of airfoil
 files

---
 weio/fast_input_file.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index abb0b68..8cb7e98 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1292,10 +1292,13 @@ def parseFASTFilTable(lines,n,iStart):
         if len(lines)!=n:
             raise WrongFormatError('Not enough lines in table: {} lines instead of {}'.format(len(lines),n))
         for i in range(n):
-            l = lines[i].split()
-            #print(l[0].strip())
-            Tab.append(l[0].strip())
-            
+            l = lines[i].strip()
+            if l[0] in ['"',"'"] and l.find(l[0],1)>0:
+                # quoted file name, may contain spaces
+                Tab.append(l[:l.find(l[0],1)+1])
+            else:
+                Tab.append(l.split()[0])
+
     except Exception as e:    
         raise Exception('Line {}: '.format(iStart+i+1)+e.args[0])
     return Tab
-- 
2.43.0


From aa8077a88cbd7f885153ad651d433bcf0fc7f7be Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:26:08 +0000
Subject: [PATCH 117/149] fix: reading an input file with an empty list of
 airfoil files never ended

---
 weio/fast_input_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 8cb7e98..4997e54 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -609,7 +609,8 @@ class FASTInputFileBase(File):
                     del NUMTAB_FROM_LAB_TYPE   [ii] 
                     del NUMTAB_FROM_LAB_DETECT_L[ii]  
 
-            elif isStr(d['label']) and d['label'].lower() in FILTAB_FROM_LAB_DETECT_L:
+            elif isStr(d['label']) and d['label'].lower() in FILTAB_FROM_LAB_DETECT_L and self[FILTAB_FROM_LAB_DIM_VAR[FILTAB_FROM_LAB_DETECT_L.index(d['label'].lower())]]!=0:
+                # NOTE: when there are no files, the line is a regular entry
                 ii             = FILTAB_FROM_LAB_DETECT_L.index(d['label'].lower())
                 d['label']     = FILTAB_FROM_LAB_VARNAME[ii]+labOffset
                 d['tabDimVar'] = FILTAB_FROM_LAB_DIM_VAR[ii]
-- 
2.43.0


From eb328acfd01c4d5ea25cd3cf5fa76ed06d027390 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 118/149] fix: TurbSim user time series with several points and
 components had columns named in the wrong order

---
 weio/turbsim_ts_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index 5b75bd5..49491ed 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -53,7 +53,8 @@ class TurbSimTSFile(File):
 
     def columns(self):
         Comp=['u','v','w']
-        return ['Time']+['Point{}{}'.format(ip+1,Comp[ic]) for ic in np.arange(self['nComp']) for ip in np.arange(len(self['Points']))]
+        # NOTE: the components of the first point come first
+        return ['Time']+['Point{}{}'.format(ip+1,Comp[ic]) for ip in np.arange(len(self['Points'])) for ic in np.arange(self['nComp'])]
 
     def units(self):
         nPoints = self['Points'].shape[0]
-- 
2.43.0


From 498c1501f0cc5df053ab04dc4bcd0e5397b96551 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 119/149] fix: TurbSim user time series without header lines
 were written with an empty line

---
 weio/turbsim_ts_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index 49491ed..b4271ee 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -71,7 +71,7 @@ class TurbSimTSFile(File):
                 lab='{:13s}'.format(lab)
             return val+' '+lab+' - '+descr.strip().strip('-')+'\n'
 
-        s='\n'.join(self['header'])+'\n'
+        s=''.join([l+'\n' for l in self['header']])
         nPoints = self['Points'].shape[0]
         s+=toStringVLD(self['nComp'],'nComp'  ,'Number of velocity components in the file'         )
         s+=toStringVLD(nPoints      ,'nPoints','Number of time series points contained in this file(-)')
-- 
2.43.0


From 6956a845d9ff469b2a58eaf8a6d96e7774d1ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 120/149] fix: deterministic wind files without comments were
 written with a line of column names that is not a comment

---
 weio/fast_wind_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weio/fast_wind_file.py b/weio/fast_wind_file.py
index b642d89..a70b5fb 100644
--- a/weio/fast_wind_file.py
+++ b/weio/fast_wind_file.py
@@ -35,6 +35,8 @@ class FASTWndFile(CSVFile):
         header+=['!Time  Wind     Wind	Vert.       Horiz.      Vert.       LinV        Gust']
         header+=['!      Speed    Dir    Speed       Shear		Shear       Shear       Speed']
 
+        self._defaultHeader = list(header)
+
         super(FASTWndFile, self).__init__(sep=' ',commentChar='!',colNames=Cols, header=header, *args, **kwargs)
 
     def _read(self, *args, **kwargs):
@@ -43,6 +45,9 @@ class FASTWndFile(CSVFile):
         super(FASTWndFile, self)._read(*args, **kwargs)
 
     def _write(self, *args, **kwargs):
+        # NOTE: without header, column names would be written, they are not comments
+        if len(self.header)==0:
+            self.header = list(self._defaultHeader)
         super(FASTWndFile, self)._write(*args, **kwargs)
 
 
-- 
2.43.0


From 05e9538cabf0d31638b23d949ec97c35c1f129e6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 121/149] fix: step winds had other column names than the wind
 files read

---
 weio/fast_wind_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/fast_wind_file.py b/weio/fast_wind_file.py
index a70b5fb..2ea2e34 100644
--- a/weio/fast_wind_file.py
+++ b/weio/fast_wind_file.py
@@ -28,6 +28,7 @@ class FASTWndFile(CSVFile):
     def __init__(self, *args, **kwargs):
         self.colNames=['Time','WindSpeed','WindDir','VertSpeed','HorizShear','VertShear','LinVShear','GustSpeed']
         self.units=['[s]','[m/s]','[deg]','[m/s]','[-]','[-]','[-]','[m/s]']
+        self._names=list(self.colNames)
         Cols=['{}_{}'.format(c,u) for c,u in zip(self.colNames,self.units)]
 
         header=[]
@@ -70,7 +71,7 @@ class FASTWndFile(CSVFile):
             tstep = np.around(np.linspace(tstep[0], tstep[1], len(Steps)),0)
         else:
             tstep = len(Steps)*[tstep]
-        nCol = len(self.colNames)
+        nCol = len(self._names)
         nRow = len(Steps)*2
         M = np.zeros((nRow,nCol));
         M[0,0] = tmin
@@ -86,4 +87,4 @@ class FASTWndFile(CSVFile):
                 M[2*i+2,1] = Steps[-1]
         M[-1,0]= max(tmax, tmin+tstep[-1])
         M[-1,1]= WSmax
-        self.data=pd.DataFrame(data=M,columns=self.colNames)
+        self.data=pd.DataFrame(data=M,columns=['{}_{}'.format(c,u) for c,u in zip(self._names,self.units)])
-- 
2.43.0


From 4fb875cd82e5860ad3c1708b7246b367c5c618a2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 122/149] fix: step winds went beyond the maximum wind speed
 when it is not a multiple of the step

---
 weio/fast_wind_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/fast_wind_file.py b/weio/fast_wind_file.py
index 2ea2e34..07d563d 100644
--- a/weio/fast_wind_file.py
+++ b/weio/fast_wind_file.py
@@ -67,6 +67,7 @@ class FASTWndFile(CSVFile):
         """
             
         Steps= np.arange(WSmin,WSmax+WSstep,WSstep)
+        Steps= Steps[Steps<=WSmax+1e-6*WSstep] # NOTE: not beyond WSmax
         if hasattr(tstep,'__len__'):
             tstep = np.around(np.linspace(tstep[0], tstep[1], len(Steps)),0)
         else:
@@ -86,5 +87,5 @@ class FASTWndFile(CSVFile):
             else:
                 M[2*i+2,1] = Steps[-1]
         M[-1,0]= max(tmax, tmin+tstep[-1])
-        M[-1,1]= WSmax
+        M[-1,1]= Steps[-1]
         self.data=pd.DataFrame(data=M,columns=['{}_{}'.format(c,u) for c,u in zip(self._names,self.units)])
-- 
2.43.0


From e3df3abae6179d020c9c70e83d35bfb5f215c01b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 123/149] fix: text files with a tabulation on the first line
 were taken for binary files

---
 weio/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/file.py b/weio/file.py
index a8b9dd4..4ba87c5 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -171,7 +171,7 @@ def isBinary(filename):
             # then look for weird characters
             for c in l:
                 code = ord(c)
-                if code<10 or (code>14 and code<31):
+                if code<9 or (code>14 and code<31): # NOTE: 9 is a tabulation
                     return True
             return False
         except UnicodeDecodeError:
-- 
2.43.0


From 727939431254cb5b0c467b6830ed6682ac9d3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 124/149] fix: TurbSim user time series with a long title were
 read as CSV files

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index bef1770..894b168 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -62,6 +62,7 @@ def fileFormats(userpath=None, ignoreErrors=False, verbose=False):
     def addFormat(priority, fmt):
         priorities.append(priority)
         formats.append(fmt)
+    addFormat(0, FileFormat(TurbSimTSFile)) # NOTE: before CSV, which accepts these files when their title has many words
     addFormat(0, FileFormat(CSVFile))
     addFormat(0, FileFormat(ExcelFile))
     addFormat(10, FileFormat(TecplotFile))
@@ -71,7 +72,6 @@ def fileFormats(userpath=None, ignoreErrors=False, verbose=False):
     addFormat(20, FileFormat(FASTWndFile))
     addFormat(20, FileFormat(FASTLinearizationFile))
     addFormat(20, FileFormat(FASTSummaryFile))
-    addFormat(20, FileFormat(TurbSimTSFile))
     addFormat(20, FileFormat(TurbSimFile))
     addFormat(30, FileFormat(HAWC2DatFile))
     addFormat(30, FileFormat(HAWC2HTCFile))
-- 
2.43.0


From 1f375811262fafdc1cbeb0a9224aabf85c1e754c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:06:10 +0000
Subject: [PATCH 125/149] fix: output lists of more than 200 lines are read

---
 weio/fast_input_file.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 4997e54..67eb09b 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1122,13 +1122,10 @@ def parseFASTInputLine(line_raw,i,allowSpaceSeparatedList=False):
 def parseFASTOutList(lines,iStart):
     OutList=[]
     i = iStart
-    MAX=200
     while i<len(lines) and lines[i].upper().find('END')!=0:
         OutList.append(lines[i]) #TODO better parsing
         #print('OutList',lines[i])
         i += 1
-        if i-iStart>MAX :
-            raise Exception('More that 200 lines found in outlist')
         if i>=len(lines):
             print('[WARN] End of file reached while reading Outlist')
     #i=min(i+1,len(lines))
-- 
2.43.0


From 0c7607ae5de235348f997a1b0c5fe6f8285ad126 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:25:19 +0000
Subject: [PATCH 126/149] fix: points of a VTK rectilinear grid keep the
 precision of all the coordinates

---
 weio/vtk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index a2d3352..9476c37 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -922,7 +922,7 @@ def _generate_points(axis):
     z_dim = len(axis[2])
     pnt_no = x_dim * y_dim * z_dim
     x_id, y_id, z_id = numpy.mgrid[0:x_dim, 0:y_dim, 0:z_dim]
-    points = numpy.empty((pnt_no, 3), dtype=axis[0].dtype)
+    points = numpy.empty((pnt_no, 3), dtype=numpy.result_type(*axis))
     # VTK sorts points and cells in Fortran order
     points[:, 0] = axis[0][x_id.reshape(-1, order="F")]
     points[:, 1] = axis[1][y_id.reshape(-1, order="F")]
-- 
2.43.0


From d99d5623bb2d7cc762959df5527fef6a52f6fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:45:42 +0000
Subject: [PATCH 127/149] fix: short names of linearization outputs keep any
 unit

---
 weio/fast_linearization_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 42df445..122a0f5 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -188,6 +188,7 @@ class FASTLinearizationFile(File):
             s = s.replace(', Nm','_[Nm]');
             s = s.replace(', N/m','_[N/m]');
             s = s.replace(', N','_[N]');
+            s = re.sub(r', *\(([^()]+)\)$', r'_[\1]', s) # other units of outputs
             s = s.replace('(1)','1')
             s = s.replace('(2)','2')
             s = s.replace('(3)','3')
-- 
2.43.0


From ce0527735d69c0e3f1a81a4bfd6fe65873101bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:59:43 +0000
Subject: [PATCH 128/149] fix: values of TurbSim time series never run into
 each other

---
 weio/turbsim_ts_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index b4271ee..3aeeb41 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -79,12 +79,12 @@ class TurbSimTSFile(File):
         s+='{:^16s}{:^16s} {}\n'.format('Pointyi','Pointzi','! nPoints listed in order of increasing height')
         s+='{:^16s}{:^16s}\n'.format('(m)','(m)')
         for row in self['Points']:
-            s+=''.join(['{:16.8e}'.format(v) for v in row])+'\n'
+            s+=''.join([' {:15.8e}'.format(v) for v in row])+'\n'
 
         s+='--------Time Series-------------------------------------------------------------\n'
         s+=''.join(['{:^16s}'.format(c) for c in self.columns()])+'\n'
         s+=''.join(['{:^16s}'.format(c) for c in self.units()])+'\n'
-        s+='\n'.join(''.join('{:16.8e}'.format(x) for x in y) for y in self['data'])
+        s+='\n'.join(''.join(' {:15.8e}'.format(x) for x in y) for y in self['data'])
         return s
 
     def _write(self):
-- 
2.43.0


From 40c1ec14c93d16311c0690bbd0b1cf95e21f3401 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:23:06 +0000
Subject: [PATCH 129/149] fix: writing a wind file does not change its header

---
 weio/fast_wind_file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weio/fast_wind_file.py b/weio/fast_wind_file.py
index 07d563d..7a3d08c 100644
--- a/weio/fast_wind_file.py
+++ b/weio/fast_wind_file.py
@@ -47,9 +47,13 @@ class FASTWndFile(CSVFile):
 
     def _write(self, *args, **kwargs):
         # NOTE: without header, column names would be written, they are not comments
-        if len(self.header)==0:
+        header = self.header
+        if len(header)==0:
             self.header = list(self._defaultHeader)
-        super(FASTWndFile, self)._write(*args, **kwargs)
+        try:
+            super(FASTWndFile, self)._write(*args, **kwargs)
+        finally:
+            self.header = header
 
 
     def _toDataFrame(self):
-- 
2.43.0


From dbe70cda5022406f4a7060cab9c350314c588f08 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 130/149] fix: missing rows of HAWC2 structural sets are
 detected in all sets

---
 weio/wetb/hawc2/st_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index 91497a0..370822c 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -92,6 +92,8 @@ class StFile(object):
                     print('it went wrong at (set/subset):', mset_nr, set_nr,
                           'with', no_rows, 'rows')
                     raise e
+                if any(len(l) == 0 for l in linelst):
+                    raise Exception('Less than {} rows found for set {}, subset {}'.format(no_rows, mset_nr, set_nr))
                 set_data_dict[set_nr] = np.array(linelst, dtype=float)
             self.main_data_sets[mset_nr] = set_data_dict
 
-- 
2.43.0


From 5647ec8fcab096e361bb145a42b9488a8e8ab764 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 131/149] fix: full profile of a turbulence box gives the
 average standard deviation over the width

---
 weio/turbsim_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 529f702..af26ca5 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -336,7 +336,7 @@ class TurbSimFile(File):
         """
         if y_span=='full':
             m = np.mean(np.mean(self['u'][:,:,:,:], axis=1), axis=1)
-            s = np.std( np.std( self['u'][:,:,:,:], axis=1), axis=1)
+            s = np.mean(np.std( self['u'][:,:,:,:], axis=1), axis=1)
         elif y_span=='mid':
             iy, iz = self.iMid
             m = np.mean(self['u'][:,:,iy,:], axis=1)
-- 
2.43.0


From 99fc50ca68e0e058568bd5902aefcc1116ce2d94 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 132/149] fix: element stiffness matrix uses the shear
 flexibility of its own direction

---
 weio/wetb/hawc2/st_file.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index 370822c..3247b29 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -187,7 +187,6 @@ class StFile(object):
         ETAY = EMOD * IY / (KX * GMOD * A * ELLGTH**2)
         ROX = 1 / (1 + 12 * ETAX)
         ROY = 1 / (1 + 12 * ETAY)
-        ROY = 1 / (1 + 12 * ETAX)
         K[1, 1] = 12 * EMOD * IY * ROY / ELLGTH**3
         K[1, 5] = 6 * EMOD * IY * ROY / ELLGTH**2
         K[1, 6] = -K[1, 1] * ES2
-- 
2.43.0


From 75c86613153e804a419fa9a5173bc0bc81852dfb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 133/149] fix: FAST text outputs are read whatever the encoding
 of their header

---
 weio/fast_output_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 7e8ac91..3f16538 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -68,7 +68,7 @@ class FASTOutputFile(File):
 
     def _read(self):
         def readline(iLine):
-            with open(self.filename) as f:
+            with open(self.filename, errors="surrogateescape") as f:
                 for i, line in enumerate(f):
                     if i==iLine-1:
                         return line.strip()
@@ -166,7 +166,7 @@ def load_output(filename):
     return load_ascii_output(filename)
 
 def load_ascii_output(filename):
-    with open(filename) as f:
+    with open(filename, errors="surrogateescape") as f:
         info = {}
         info['name'] = os.path.splitext(os.path.basename(filename))[0]
         # Header is whatever is before the keyword `time`
-- 
2.43.0


From 6b420faca0ffa86c6ca647d420e574be69176685 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 134/149] fix: FLEX profile files are written with the headers
 they were read with, whatever their encoding

---
 weio/flex_profile_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index 52d708e..052c6b0 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -127,7 +127,7 @@ class FLEXProfileFile(File):
         return s
 
     def _write(self):
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f:
             f.write(self.toString())
 
     def __repr__(self):
-- 
2.43.0


From caf7d967bfe11b782ceafe5c6b63b657d548fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 135/149] fix: TurbSim time series are written with the header
 they were read with, whatever its encoding

---
 weio/turbsim_ts_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index 3aeeb41..8cbc3d3 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -88,7 +88,7 @@ class TurbSimTSFile(File):
         return s
 
     def _write(self):
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f:
             f.write(self.toString())
 
         
-- 
2.43.0


From d9a140566b5a7227c0ff87e9f3633a7d5fda22eb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 136/149] fix: HAWC2 ae, pc and st files are read whatever the
 encoding of their remarks

---
 weio/hawc2_st_file.py      | 2 +-
 weio/wetb/hawc2/ae_file.py | 2 +-
 weio/wetb/hawc2/pc_file.py | 2 +-
 weio/wetb/hawc2/st_file.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/hawc2_st_file.py b/weio/hawc2_st_file.py
index 0b484f9..ca9e2a5 100644
--- a/weio/hawc2_st_file.py
+++ b/weio/hawc2_st_file.py
@@ -29,7 +29,7 @@ class HAWC2StFile(File):
         nLinesMax=12
         hasPound=False
         hasDollar=False
-        with open(self.filename,'r') as fid:
+        with open(self.filename,'r', errors='surrogateescape') as fid:
             for i, line in enumerate(fid):
                 hasPound  = hasPound or  line.startswith('#') 
                 hasDollar = hasDollar or line.startswith('$')
diff --git a/weio/wetb/hawc2/ae_file.py b/weio/wetb/hawc2/ae_file.py
index e8257dc..f03c610 100644
--- a/weio/wetb/hawc2/ae_file.py
+++ b/weio/wetb/hawc2/ae_file.py
@@ -108,7 +108,7 @@ class AEFile(object):
 
     def _read_file(self, filename):
         ''' This method will read in the ae data from a HAWC2 ae file'''
-        with open(filename) as fid:
+        with open(filename, errors='surrogateescape') as fid:
             lines = fid.readlines()
         nsets = int(lines[0].split()[0])
         lptr = 1
diff --git a/weio/wetb/hawc2/pc_file.py b/weio/wetb/hawc2/pc_file.py
index 097ae96..8e51abd 100644
--- a/weio/wetb/hawc2/pc_file.py
+++ b/weio/wetb/hawc2/pc_file.py
@@ -23,7 +23,7 @@ class PCFile(object):
     def __init__(self, filename=None):
         self.pc_sets = {}
         if filename is not None:
-            with open (filename) as fid:
+            with open (filename, errors='surrogateescape') as fid:
                 lines = fid.readlines()
             self._parse_lines(lines)
             self.filename = filename
diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index 3247b29..4bfc3e5 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -70,7 +70,7 @@ class StFile(object):
             self.main_data_sets = {}
             return
 
-        with open(filename) as fid:
+        with open(filename, errors='surrogateescape') as fid:
             txt = fid.read()
 #         Some files starts with first set ("#1...") with out specifying number of sets
 #         no_maindata_sets = int(txt.strip()[0])
-- 
2.43.0


From a98c62c5d97b96d253d88684f539aac7c4511245 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 137/149] fix: HAWC2 sel files are read and written whatever
 the encoding of their descriptions

---
 weio/hawc2_dat_file.py     | 2 +-
 weio/wetb/hawc2/Hawc2io.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 8e626e0..b10ab2f 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -116,7 +116,7 @@ class HAWC2DatFile(File):
         # --- dat file
         np.savetxt(datfilename, self.data, fmt=b'%16.8e')
         # --- Sel file
-        with open(selfilename, 'w') as f:
+        with open(selfilename, 'w', errors='surrogateescape') as f:
             if self.bHawc:
                 f.write('BHawC channel reference file (sel):\n')
                 f.write('+===================== (Name) =================== (Time stamp) ========= (Path) ==========================================================+\n')
diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 7edd413..42565b4 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -80,7 +80,7 @@ class ReadHawc2(object):
         # read *.sel hawc2 output file for result info
         if self.FileName.lower().endswith('.sel'):
             self.FileName = self.FileName[:-4]
-        fid = opent(self.FileName + '.sel', 'r')
+        fid = opent(self.FileName + '.sel', 'r', errors='surrogateescape')
         Lines = fid.readlines()
         fid.close()
         if Lines[0].lower().find('bhawc')>=0:
-- 
2.43.0


From ace4dc916d0f51b3ac73cff7ae76c76553e82afe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 138/149] fix: FAST binary outputs read without buffer give
 zeros for channels without scale, as with a buffer

---
 weio/fast_output_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 3f16538..64a6d17 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -349,6 +349,7 @@ def load_binary_output(filename, use_buffer=True):
     else:
         # NOTE: memory expensive due to time conversion, and concatenation
         data = (data - ColOff) / ColScl
+        data[:, np.isnan(np.ravel(ColScl)) & np.isnan(np.ravel(ColOff))] = 0 # see above
         data = np.concatenate([time.reshape(NT, 1), data], 1)
 
     info = {'name': os.path.splitext(os.path.basename(filename))[0],
-- 
2.43.0


From a639f39252d79898f7c7b489abc00e59df1a07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 139/149] fix: TurbSim boxes with a single time step or point
 can be printed

---
 weio/turbsim_file.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index af26ca5..fc755a9 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -543,12 +543,13 @@ class TurbSimFile(File):
 
 
     def __repr__(self):
+        step = lambda v: v[1]-v[0] if len(v)>1 else np.nan
         s='<{} object> with keys:\n'.format(type(self).__name__)
         s+=' - filename: {}\n'.format(self.filename)
         s+=' - ID: {}\n'.format(self['ID'])
-        s+=' - z: [{} ... {}],  dz: {}, n: {} \n'.format(self['z'][0],self['z'][-1],self['z'][1]-self['z'][0],len(self['z']))
-        s+=' - y: [{} ... {}],  dy: {}, n: {} \n'.format(self['y'][0],self['y'][-1],self['y'][1]-self['y'][0],len(self['y']))
-        s+=' - t: [{} ... {}],  dt: {}, n: {} \n'.format(self['t'][0],self['t'][-1],self['t'][1]-self['t'][0],len(self['t']))
+        s+=' - z: [{} ... {}],  dz: {}, n: {} \n'.format(self['z'][0],self['z'][-1],step(self['z']),len(self['z']))
+        s+=' - y: [{} ... {}],  dy: {}, n: {} \n'.format(self['y'][0],self['y'][-1],step(self['y']),len(self['y']))
+        s+=' - t: [{} ... {}],  dt: {}, n: {} \n'.format(self['t'][0],self['t'][-1],step(self['t']),len(self['t']))
         if 'u' in self.keys():
             s+=' - u: ({} x {} x {} x {}) \n'.format(*(self['u'].shape))
             ux,uy,uz=self['u'][0], self['u'][1], self['u'][2]
@@ -567,7 +568,7 @@ class TurbSimFile(File):
 
         # Tower
         if 'zTwr' in self.keys() and len(self['zTwr'])>0:
-            s+=' - zTwr: [{} ... {}],  dz: {}, n: {} \n'.format(self['zTwr'][0],self['zTwr'][-1],self['zTwr'][1]-self['zTwr'][0],len(self['zTwr']))
+            s+=' - zTwr: [{} ... {}],  dz: {}, n: {} \n'.format(self['zTwr'][0],self['zTwr'][-1],step(self['zTwr']),len(self['zTwr']))
         if 'uTwr' in self.keys() and self['uTwr'].shape[2]>0:
             s+=' - uTwr: ({} x {} x {} ) \n'.format(*(self['uTwr'].shape))
             ux,uy,uz=self['uTwr'][0], self['uTwr'][1], self['uTwr'][2]
-- 
2.43.0


From d1df0894b5ca362a7f188685dff7100ff6dee1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 140/149] fix: HAWC2 st objects can be pickled, and the
 accessors of a copy are those of its own data

---
 weio/wetb/hawc2/st_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index 4bfc3e5..859fe07 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -4,6 +4,7 @@ Created on 24/04/2014
 @author: MMPE
 '''
 import types
+from functools import partial
 import os
 import numpy as np
 
@@ -105,8 +106,10 @@ class StFile(object):
             raise TypeError('wrong number of columns in st file')
 
         for i, name in enumerate(self.cols):
-            setattr(self, name, lambda radius=None, mset=1, set=1,
-                    column=i: self._value(radius, column, mset, set))
+            setattr(self, name, partial(self._column_value, i))
+
+    def _column_value(self, column, radius=None, mset=1, set=1):
+        return self._value(radius, column, mset, set)
 
     def _value(self, radius, column, mset_nr=1, set_nr=1):
         st_data = self.main_data_sets[mset_nr][set_nr]
-- 
2.43.0


From a86188c882fa4e40b86cce78d3aff018ada33031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 141/149] fix: HAWC2 htc objects can be copied and pickled

---
 weio/wetb/hawc2/htc_contents.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index b436b38..b119d1b 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -66,6 +66,8 @@ class HTCContents(object):
             return object.__getattribute__(self, *args, **kwargs)
         except Exception:
             k = args[0]
+            if k.startswith('__'):
+                raise  # looked up by python, e.g. to copy the object
             if k.endswith("__1"):
                 k = k[:-3]
             return self.contents[k]
-- 
2.43.0


From 27debb2dbce2601f7f34458f35a263daab3fa71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 142/149] fix: htc files without new_htc_structure can be
 printed and converted to tables

---
 weio/hawc2_htc_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/hawc2_htc_file.py b/weio/hawc2_htc_file.py
index 0a7449c..4f0b863 100644
--- a/weio/hawc2_htc_file.py
+++ b/weio/hawc2_htc_file.py
@@ -43,7 +43,7 @@ class HAWC2HTCFile(File):
 
     @property
     def bodyDict(self):
-        struct = self.data.new_htc_structure
+        struct = self.data.get('new_htc_structure', {})
         bodyKeys = [k for k in struct.keys() if k.startswith('main_body')]
         #print('>>> keys', struct.keys())
         bdDict={}
@@ -99,7 +99,7 @@ class HAWC2HTCFile(File):
         simdir  = os.path.dirname(self.filename)
 
         # --- C2 def
-        bodyKeys = [k for k in self.data.new_htc_structure.keys() if k.startswith('main_body')]
+        bodyKeys = [k for k in self.data.get('new_htc_structure', {}).keys() if k.startswith('main_body')]
         for k in bodyKeys:
             bdy = self.data.new_htc_structure[k]
             try:
-- 
2.43.0


From 98e927c167d6123563c13ffab84f8234c0c46215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 143/149] fix: RAAW files with missing channels are given as
 xarray, with the channels in the order of the key

---
 weio/raawmat_file.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/weio/raawmat_file.py b/weio/raawmat_file.py
index dc7d063..4d9f7fd 100644
--- a/weio/raawmat_file.py
+++ b/weio/raawmat_file.py
@@ -60,14 +60,14 @@ def matfile(path_file,output='pandas',path_key=None):
     if not path_key==None:
         # load in list of channels
         channel_key = pd.read_csv(path_key)
-        list_50hz = channel_key['50hz'].to_list()
+        list_50hz = channel_key['50hz'].dropna().to_list()
         list_1hz = channel_key['1hz'].dropna().to_list()
         # check if file size matches channel list size
         if mfile['DataCell'].size > (len(list_50hz)+len(list_1hz)):
             print('WARNING: channel size in file is greater than size of channel names lists!')
         # find any missing channels from file
-        missing50hz = list(set(list_50hz)-set(names_50hz))
-        missing1hz = list(set(list_1hz)-set(names_1hz))
+        missing50hz = [name for name in list_50hz if name not in names_50hz]
+        missing1hz = [name for name in list_1hz if name not in names_1hz]
 
     if output == 'xarray':
         import xarray as xr
@@ -79,10 +79,10 @@ def matfile(path_file,output='pandas',path_key=None):
         try:
             if missing50hz:
                 for x in missing50hz: dat_50hz.append(nan50)
-                names_50hz.append(missing50hz)
+                names_50hz.extend(missing50hz)
             if missing1hz:
                 for y in missing1hz: dat_1hz.append(nan1)
-                names_1hz.append(missing1hz)
+                names_1hz.extend(missing1hz)
         except:
             pass
         # convert lists into xarray
-- 
2.43.0


From c2d314e4b54021b90b105a4ee5c200fe66361a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 144/149] fix: files of the wakes section of htc files are
 looked for in that section

---
 weio/wetb/hawc2/htc_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 76db2fd..21c3859 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -342,9 +342,9 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
             files.append(self.wind.get('user_defined_shear_turbulence', [None])[0])
             files.append(self.wind.get('met_mast_wind', [None])[0])
         if 'wakes' in self:
-            files.append(self.wind.get('use_specific_deficit_file', [None])[0])
-            files.append(self.wind.get('write_ct_cq_file', [None])[0])
-            files.append(self.wind.get('write_final_deficits', [None])[0])
+            files.append(self.wakes.get('use_specific_deficit_file', [None])[0])
+            files.append(self.wakes.get('write_ct_cq_file', [None])[0])
+            files.append(self.wakes.get('write_final_deficits', [None])[0])
         if 'hydro' in self:
             if 'water_properties' in self.hydro:
                 files.append(self.hydro.water_properties.get('water_kinematics_dll', [None])[0])
-- 
2.43.0


From d0a7c47f2b325b08ebe6d22f141349b81bd38d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 145/149] fix: files included in htc files are found whatever
 the case of their names

---
 weio/wetb/hawc2/htc_file.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 21c3859..e981ecc 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -47,6 +47,13 @@ def fixcase(path):
         # Use matched folder
         p = pjoin(p, f_lst[0])
     return p
+
+def isfile_case_insensitive(f):
+    try:
+        f = fixcase(f)  # raises exception if not existing
+        return os.path.isfile(f)
+    except IOError:
+        return False
 # --- end os_path
 
 class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
@@ -144,12 +151,6 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
             return "../"
         rel_input_files = [f for f in input_files if not os.path.isabs(f)]
 
-        def isfile_case_insensitive(f):
-            try:
-                f = fixcase(f)  # raises exception if not existing
-                return os.path.isfile(f)
-            except IOError:
-                return False
         found = ([np.sum([isfile_case_insensitive(os.path.join(os.path.dirname(self.filename), "../" * i, f))
                           for f in rel_input_files]) for i in range(4)])
 
@@ -204,7 +205,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
 
                 if self.modelpath == 'unknown':
                     p = os.path.dirname(self.filename)
-                    lu = [os.path.isfile(os.path.abspath(os.path.join(p, "../" * i, filename.replace("\\", "/"))))
+                    lu = [isfile_case_insensitive(os.path.abspath(os.path.join(p, "../" * i, filename.replace("\\", "/"))))
                           for i in range(4)].index(True)
                     filename = os.path.join(p, "../" * lu, filename)
                 else:
-- 
2.43.0


From bb194ea9acaaf1ec13320aab5d676cd4576822cb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:03:09 +0000
Subject: [PATCH 146/149] fix: HAWC2 ae radius_ae(0) gives the first station,
 not all of them

---
 weio/wetb/hawc2/ae_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/ae_file.py b/weio/wetb/hawc2/ae_file.py
index f03c610..18fc1e6 100644
--- a/weio/wetb/hawc2/ae_file.py
+++ b/weio/wetb/hawc2/ae_file.py
@@ -58,7 +58,7 @@ class AEFile(object):
 
     def radius_ae(self, radius=None, set_nr=1):
         radii = self.ae_sets[set_nr][:, 0]
-        if radius:
+        if radius is not None:
             return radii[np.argmin(np.abs(radii - radius))]
         else:
             return radii
-- 
2.43.0


From 1af1565fce76c4a130b0cccdb490352996bf5472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:52 +0000
Subject: [PATCH 147/149] fix: comparison of htc files reports sensors whose
 type differs

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index b119d1b..94495e8 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -498,7 +498,7 @@ class HTCSensor(HTCLine):
 
     def compare(self, other):
         s = ""
-        if self.sensor != other.sensor or self.values != other.values:
+        if self.type != other.type or self.sensor != other.sensor or self.values != other.values:
             s += "\n".join(["+ %s" % l for l in str(self).strip().split("\n")]) + "\n"
             s += "\n".join(["- %s" % l for l in str(other).strip().split("\n")]) + "\n"
             s += "\n"
-- 
2.43.0


From 9a41d9cf9e649fbc4fa259ef9a8398d5dfc97eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:52 +0000
Subject: [PATCH 148/149] fix: ROSCO title with the name of the turbine is not
 taken for a table

---
 weio/rosco_performance_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 03f637e..0a51647 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -150,8 +150,12 @@ def load_from_txt(txt_filename):
 
     with open(txt_filename) as pfile:
         for iline, line in enumerate(pfile):
+            # Title, with the name of the turbine
+            if 'Rotor performance tables' in line:
+                pass
+
             # Read Blade Pitch Angles (degrees)
-            if 'Pitch angle' in line:
+            elif 'Pitch angle' in line:
                 pitch = np.array([float(x) for x in pfile.readline().strip().split()])
 
             # Read Tip Speed Ratios (rad)
-- 
2.43.0


From a2f8b1382075bc1e86e28d36c2e5ec430e882b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:52 +0000
Subject: [PATCH 149/149] fix: Bladed, BModes, FLEX sensor, ROSCO and Tecplot
 files may hold characters that are not UTF-8

---
 weio/bladed_out_file.py        | 2 +-
 weio/bmodes_out_file.py        | 2 +-
 weio/flex_out_file.py          | 2 +-
 weio/rosco_performance_file.py | 2 +-
 weio/tecplot_file.py           | 6 +++---
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 3779605..f7a8556 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -21,7 +21,7 @@ def read_bladed_sensor_file(sensorfile):
     """ 
     Extract relevant informations from a bladed sensor file
     """
-    with open(sensorfile, 'r') as fid:
+    with open(sensorfile, 'r', errors="surrogateescape") as fid:
         sensorLines = fid.readlines()
 
     dat=dict() # relevant info in sensor file
diff --git a/weio/bmodes_out_file.py b/weio/bmodes_out_file.py
index ca6f705..df35831 100644
--- a/weio/bmodes_out_file.py
+++ b/weio/bmodes_out_file.py
@@ -77,7 +77,7 @@ class BModesOutFile(File):
         #    for i, line in enumerate(f):
         #        self['data'].append(line)
 
-        with open(self.filename) as f:
+        with open(self.filename, errors="surrogateescape") as f:
             self['frequencies'] = []
             self['mode_shapes'] = []
             row_string = f.readline()
diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index f05439d..c800cb1 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -129,7 +129,7 @@ def read_flex_res(filename, dtype=np.float32):
 
 
 def read_flex_sensor(sensor_file):
-    with open(sensor_file, encoding="utf-8") as fid:
+    with open(sensor_file, encoding="utf-8", errors="surrogateescape") as fid:
         sensor_info_lines = fid.readlines()[2:]
     sensor_info = []
     d=dict({ 'ID':[],'Gain':[],'Offset':[],'Unit':[],'Name':[],'Description':[]});
diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 0a51647..ac46931 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -148,7 +148,7 @@ def load_from_txt(txt_filename):
             M[tsr_i] = row
         return M
 
-    with open(txt_filename) as pfile:
+    with open(txt_filename, errors="surrogateescape") as pfile:
         for iline, line in enumerate(pfile):
             # Title, with the name of the turbine
             if 'Rotor performance tables' in line:
diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index f86c157..a3ebeeb 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -94,7 +94,7 @@ def read_tecplot(filename, dict_out=None):
     merged_line=''
     current_section=''
     variables=[]
-    with open(filename, "r") as f:
+    with open(filename, "r", errors="surrogateescape") as f:
         dfs = []  # list of dataframes
         iline=0
         while True:
@@ -132,7 +132,7 @@ def read_tecplot(filename, dict_out=None):
                         _process_merged_line(merged_line, current_section, dict_out)
                     # --- Special case of numerical values outside of zone
                     f.close()
-                    M = np.loadtxt(filename, skiprows = iline-1, ndmin=2)
+                    M = np.loadtxt(filename, skiprows = iline-1, ndmin=2, encoding='latin-1')
                     if M.shape[1]!=len(dict_out['variables']):
                         raise BrokenFormatError('Number of columns of data does not match number of variables')
                     dict_out['data']=M
@@ -188,7 +188,7 @@ class TecplotFile(File):
         if not self.filename:
             raise Exception('No filename provided')
 
-        with open(self.filename, mode='w') as f:            
+        with open(self.filename, mode='w', errors="surrogateescape") as f:            
             if 'title' in self.keys():
                 f.write('TITLE = {}\n'.format(self['title']))
             f.write('VARIABLES = ' + ','.join(['"{}"'.format(col) for col in self['variables'] ]) + '\n')
-- 
2.43.0

