From 3f94ec9ca9f234fb5c2f770d3864cda87a31a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 1/8] fix: lonlat2cart ignored its radius argument

The documented rad argument (nominal sphere radius) had no effect; the
default of one is unchanged.
---
 simplegrid/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 9ee6c7e..b1cb763 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -35,7 +35,7 @@ def lonlat2cart( lons, lats, rad=1.):
     cart[:,:,1] = np.sin(np.radians(lons))*np.cos(np.radians(lats)) # y
     cart[:,:,2] = np.sin(np.radians(lats))                          # z
 
-    return cart
+    return rad*cart
 
 
 def nearest(lon,lat,lons,lats,geod):
-- 
2.43.0


From e3f7cf9be4cef00a3c2c832159442153a96a5c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 2/8] fix: regrid rotated XG, YG in the caller's
 mitgrid_matrices

When the selected corners required a rotation, the caller's dictionary was
left with rotated XG, YG matrices, inconsistent with its other fields and
with any later use.
---
 simplegrid/regrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index 3cffefc..c61899d 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -160,7 +160,9 @@ def regrid( strict=False, verbose=False, **kwargs):
         else:
             raise ValueError("ni, nj required if xg/yg_file specified")
     elif mitgrid_matrices:
-        mitgrid = mitgrid_matrices
+        # shallow copy, since XG, YG entries may be replaced by rotated versions
+        # below (the caller's dictionary is not to be changed):
+        mitgrid = dict(mitgrid_matrices)
         # ni, nj from tracer cell counts:
         (ni,nj) = mitgrid['XC'].shape
     else:
-- 
2.43.0


From 49224ce666cd2f7052f043d6c86d97cbef805ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:12 +0000
Subject: [PATCH 3/8] fix: regrid read a .csv corner point file as binary when
 the other file was not .csv

---
 simplegrid/regrid.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index c61899d..69ab96a 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -144,19 +144,16 @@ def regrid( strict=False, verbose=False, **kwargs):
     elif xg_file and yg_file:
         mitgrid = {key:None for key in mitgridfilefields.names}
         if ni and nj:
-            if os.path.splitext(xg_file)[1] == '.csv' and \
-               os.path.splitext(yg_file)[1] == '.csv':
-                # read .csv data, store in dictionary fields that read_mitgridfile
-                # would have produced:
-                mitgrid['XG'] = np.loadtxt(xg_file,delimiter=',')
-                mitgrid['YG'] = np.loadtxt(yg_file,delimiter=',')
-            else:
-                # read binary column-ordered data, store in dictionary fields that
-                # read_mitgridfile would have produced:
-                XG_raw = np.fromfile(xg_file,mitgridfilefields.datatype)
-                mitgrid['XG'] = np.reshape(XG_raw,(ni+1,nj+1),order='F')
-                YG_raw = np.fromfile(yg_file,mitgridfilefields.datatype)
-                mitgrid['YG'] = np.reshape(YG_raw,(ni+1,nj+1),order='F')
+            # store data in dictionary fields that read_mitgridfile would have
+            # produced:
+            for (name,filename) in (('XG',xg_file),('YG',yg_file)):
+                if os.path.splitext(filename)[1] == '.csv':
+                    # .csv data, one matrix row per line:
+                    mitgrid[name] = np.loadtxt(filename,delimiter=',')
+                else:
+                    # binary column-ordered data:
+                    raw = np.fromfile(filename,mitgridfilefields.datatype)
+                    mitgrid[name] = np.reshape(raw,(ni+1,nj+1),order='F')
         else:
             raise ValueError("ni, nj required if xg/yg_file specified")
     elif mitgrid_matrices:
-- 
2.43.0


From 4d1e6f974136da6572db19b5f83332475be55ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:12 +0000
Subject: [PATCH 4/8] fix: matchedges accepted edges with different cell counts

---
 simplegrid/matchedges.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simplegrid/matchedges.py b/simplegrid/matchedges.py
index 9ca0346..12828c9 100644
--- a/simplegrid/matchedges.py
+++ b/simplegrid/matchedges.py
@@ -153,6 +153,9 @@ def matchedges( aXG, aYG, bXG, bYG, geod, verbose=False):
     if (a_edge+b_edge!=N+S) and (a_edge+b_edge!=E+W):
         raise ValueError('Inconsistent edge match for input grids')
 
+    if aXG[a_edge_slice].shape!=bXG[b_edge_slice].shape:
+        raise ValueError('Matching edges have different cell counts')
+
     if verbose:
         print(msg)
 
-- 
2.43.0


From 1f9cf0592e1da5e6e4cee0e1aa20320ace3399f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 5/8] fix: getobcs rejected or misread open boundary index
 vectors

Vectors of more than one element raised ValueError, a zero vector of one
element was taken as absent, and negative indices were not counted from
the far end for the south and west boundaries.
---
 simplegrid/getobcs.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index d9d0b3b..51fd585 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -156,10 +156,10 @@ def getobcs( strict=False, verbose=False, **kwargs):
     ni_regional             = kwargs.get('ni_regional')
     nj_regional             = kwargs.get('nj_regional')
     parent_resultsdir       = kwargs.get('parent_resultsdir')
-    ob_jnorth               = np.array(kwargs.get('OB_Jnorth'))
-    ob_jsouth               = np.array(kwargs.get('OB_Jsouth'))
-    ob_ieast                = np.array(kwargs.get('OB_Ieast'))
-    ob_iwest                = np.array(kwargs.get('OB_Iwest'))
+    ob_jnorth               = kwargs.get('OB_Jnorth')
+    ob_jsouth               = kwargs.get('OB_Jsouth')
+    ob_ieast                = kwargs.get('OB_Ieast')
+    ob_iwest                = kwargs.get('OB_Iwest')
     resultsdir              = kwargs.get('resultsdir')
 
     #
@@ -236,33 +236,31 @@ def getobcs( strict=False, verbose=False, **kwargs):
     # defaults:
 
     do_ob_jnorth, do_ob_jsouth, do_ob_ieast, do_ob_iwest = [True]*4
-    if not ob_jnorth:
+    if ob_jnorth is None:
         ob_jnorth = np.ones(ni_regional,dtype=int)*nj_regional
-    elif not any(ob_jnorth!=0):
+    elif not np.any(ob_jnorth):
         do_ob_jnorth = False
-    if not ob_jsouth:
+    if ob_jsouth is None:
         ob_jsouth = np.ones(ni_regional,dtype=int)
-    elif not any(ob_jsouth!=0):
+    elif not np.any(ob_jsouth):
         do_ob_jsouth = False
-    if not ob_ieast:
+    if ob_ieast is None:
         ob_ieast = np.ones(nj_regional,dtype=int)*ni_regional
-    elif not any(ob_ieast!=0):
+    elif not np.any(ob_ieast):
         do_ob_ieast = False
-    if not ob_iwest:
+    if ob_iwest is None:
         ob_iwest = np.ones(nj_regional,dtype=int)
-    elif not any(ob_iwest!=0):
+    elif not np.any(ob_iwest):
         do_ob_iwest = False
 
     # apply logic to negative indices and convert vectors to zeros-based:
 
-    if do_ob_jnorth:
-        ob_jnorth = np.array([nj_regional+1+j if j<0 else j for j in ob_jnorth]) - 1
-    if do_ob_jsouth:
-        ob_jsouth = ob_jsouth - 1
-    if do_ob_ieast:
-        ob_ieast = np.array([ni_regional+1+i if i<0 else i for i in ob_ieast]) - 1
-    if do_ob_iwest:
-        ob_iwest = ob_iwest - 1
+    zeros_based = lambda ob,n : np.array(
+        [n+1+idx if idx<0 else idx for idx in np.atleast_1d(ob)]) - 1
+    ob_jnorth = zeros_based(ob_jnorth,nj_regional)
+    ob_jsouth = zeros_based(ob_jsouth,nj_regional)
+    ob_ieast  = zeros_based(ob_ieast,ni_regional)
+    ob_iwest  = zeros_based(ob_iwest,ni_regional)
 
     #
     # output directory:
-- 
2.43.0


From 005470fb24ded648e3550f56ea089c17eeba455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 6/8] fix: getobcs wrote boundary files with time, not the
 boundary index, fastest

---
 simplegrid/getobcs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 51fd585..fa284b9 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -474,11 +474,12 @@ def getobcs( strict=False, verbose=False, **kwargs):
             # write accumulated time, depth results:
             for ob in obs:
                 if obs[ob]['do']:
-                    outarray = np.asfortranarray(obs[ob]['ob_array'],dtype='>f8')
+                    # column-major, i.e., boundary index fastest, then depth, then
+                    # time:
+                    outarray = np.ravel(obs[ob]['ob_array'],order='F').astype('>f8')
                     filename = 'OB'+ob+response.lower() # plus an optional name?
-                    fd = open(os.path.join(resultsdir,filename),'wb')
-                    outarray.tofile(fd)
-                    fd.close
+                    with open(os.path.join(resultsdir,filename),'wb') as fd:
+                        outarray.tofile(fd)
 
 
 def main():
-- 
2.43.0


From 9323f02c730f852f0f92b2ed3257d804ba4f57aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 7/8] fix: getobcs command took only one index per boundary
 vector and required the optional --resultsdir

---
 simplegrid/getobcs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index fa284b9..209429e 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -37,21 +37,21 @@ def create_parser():
         number of tracer points in the regional model grid 'y' direction""")
     parser.add_argument('--parent_resultsdir', required=True, help="""
         MITgcm parent grid results directory""")
-    parser.add_argument('--OB_Jnorth', type=int, help="""
+    parser.add_argument('--OB_Jnorth', type=int, nargs='+', help="""
         North boundary vector of length ni_regional containing boundary tracer
         cell j indices per MITgcm OBCS package conventions.  Boundaries are
         ignored for any index vector that is identically zero, and defaults to
         edge tracer cell indices if not provided. Negative indices supported.""")
-    parser.add_argument('--OB_Jsouth', type=int, help="""
+    parser.add_argument('--OB_Jsouth', type=int, nargs='+', help="""
         South boundary vector of length ni_regional containing boundary tracer
         cell j indices (See --OB_JNorth comments)""")
-    parser.add_argument('--OB_Ieast', type=int, help="""
+    parser.add_argument('--OB_Ieast', type=int, nargs='+', help="""
         East boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
-    parser.add_argument('--OB_Iwest', type=int, help="""
+    parser.add_argument('--OB_Iwest', type=int, nargs='+', help="""
         West boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
-    parser.add_argument('--resultsdir', required=True, help="""
+    parser.add_argument('--resultsdir', help="""
         directory in which to store resulting open boundary condition matrices.
         Defaults to parent_resultsdir+'_obcs' if not provided.""")
     parser.add_argument('-s','--strict',action='store_true', help="""
-- 
2.43.0


From cc0f01cd79b94743c0875ec1e43ea94225e6a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 8/8] fix: rdmds could not keep the record dimension when
 reading all records without squeezing

---
 simplegrid/mds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 4b2da70..b6f8897 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -465,7 +465,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
             squeezed = tuple( d for d in dims if d > 1 )
         else:
             # squeeze all that came from scalar arguments
-            keepers = [itrsislist, np.iterable(rec)] + [np.iterable(l) for l in lev]
+            keepers = [itrsislist, np.iterable(rec) or len(reclist)>1] + [np.iterable(l) for l in lev]
             squeezed = tuple( d for d,keep in zip(dims, keepers) if keep )
 
         arr = arr.reshape(squeezed+arr.shape[2+nlev:])
-- 
2.43.0

