From 8b75bdbd678f60bca878ec926fa88aca01897181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 01/87] fix: S_from_Y called the _check_3D_shape_ module and
 indexed a list

---
 src/pyRFtk/S_from_Y.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/S_from_Y.py b/src/pyRFtk/S_from_Y.py
index e93a873..66fd44e 100644
--- a/src/pyRFtk/S_from_Y.py
+++ b/src/pyRFtk/S_from_Y.py
@@ -1,7 +1,7 @@
 __updated__ = "2020-12-18 17:56:43"
 
 import numpy as np
-from . import _check_3D_shape_
+from ._check_3D_shape_ import _check_3D_shape_
 
 #===============================================================================
 #
@@ -17,7 +17,7 @@ def S_from_Y(Y, Zbase=50.):
     L, Y = _check_3D_shape_(Y)
     
     Y0 = np.eye(Y.shape[1])/Zbase
-    S = [ (Y0 - Yk) @ np.linalg.inv(Y0 + Yk)  for Yk in Y]
+    S = np.array([ (Y0 - Yk) @ np.linalg.inv(Y0 + Yk)  for Yk in Y])
     
     S = S[0,0,0] if L == 0 else S[:,0,0] if L == 1 else S[0,:,:] if L==2 else S 
     
-- 
2.43.0


From 565f80b94d25bc7a351fdd8249399cd873bfcf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 02/87] fix: rfBase.tsf2str called the Z_from_S/Y_from_S
 modules for Z and Y formats

---
 src/pyRFtk/rfBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index e6367b0..fe8ba6c 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -19,7 +19,8 @@ from .config import logident, logit, _newID
 from .whoami import whoami
 from .printMatrices import strM
 from .ConvertGeneral import ConvertGeneral
-from . import Z_from_S, Y_from_S
+from .Z_from_S import Z_from_S
+from .Y_from_S import Y_from_S
 from ._check_3D_shape_ import _check_3D_shape_
         
 #===============================================================================
-- 
2.43.0


From 4279308db2492333247164a6c32e8c17f0b8db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 03/87] fix: ConvertGeneral dropped all but the first frequency
 of a 1D S1

---
 src/pyRFtk/ConvertGeneral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ConvertGeneral.py b/src/pyRFtk/ConvertGeneral.py
index 7c22530..0af2db7 100644
--- a/src/pyRFtk/ConvertGeneral.py
+++ b/src/pyRFtk/ConvertGeneral.py
@@ -132,7 +132,7 @@ def ConvertGeneral(Z2, S1, Z1, type1='V', type2='V'):
     
     elif L == 1:
         _debug_ and logident('< L==1')
-        return [S2[0,0,0]]
+        return S2[:,0,0]
     
     elif L == 2:
         _debug_ and logident('< L==2')
-- 
2.43.0


From 36d53ca7fd874c15883c8be668a7c8e66da7c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 04/87] fix: rfRLC.getS(0) used np.complex, which numpy no
 longer has

---
 src/pyRFtk/rfRLC.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 46d83db..62dce21 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -223,7 +223,7 @@ class rfRLC():
                         self.S = np.array(
                             [[ (self.Rs-Zbase)/(self.Rs + Zbase) , 0j ],
                              [               0j                  , -1 ]],
-                            dtype=np.complex)                   
+                            dtype=complex)                   
                 else:
                     if self.Lp == +np.inf:
                         # (s) -- OO --+-- (p)
@@ -237,12 +237,12 @@ class rfRLC():
                             rcp = +1
                         self.S = np.array(
                             [[1, 0j],[0j, rcp ]],
-                            dtype=np.complex)
+                            dtype=complex)
                     else:
                         # (s) -- OO --+-- (p)
                         #             |
                         #            Gnd
-                        self.S = np.array([[1, 0j], [0j, -1]], dtype=np.complex)
+                        self.S = np.array([[1, 0j], [0j, -1]], dtype=complex)
             return self.S
         
         Ss = []
-- 
2.43.0


From ed0db300b046caaefb9009333a77a02a4c768239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 05/87] fix: rfRLC.getS(0) did not normalise Rs and Rp to Zbase

---
 src/pyRFtk/rfRLC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 62dce21..96675e4 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -202,14 +202,14 @@ class rfRLC():
                              [  1 - zs ,  -1   ]])
             else:
                 if self.Cs == +np.inf:
-                    zs = self.Rs
+                    zs = self.Rs/Zbase
                     if self.Lp == +np.inf:
                         # (s) -- Rs --+-- (p)
                         #             |
                         #             Rp
                         #             |
                         #            Gnd
-                        yp = 1/self.Rp
+                        yp = Zbase/self.Rp
                         self.S = np.linalg.inv(
                                 [[     1   , 1 + yp],
                                  [-(1 + zs),   1   ]]
-- 
2.43.0


From 8ef4a1d0c8e655a2d1569a0cc8dc310304337674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 06/87] fix: rfRLC.getS emptied the caller's params dict (a
 dict shared by two blocks only reached the first)

---
 src/pyRFtk/rfRLC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 96675e4..a91a10c 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -184,7 +184,7 @@ class rfRLC():
             Zbase = self.Zbase
         
         for p in ['Rs','Ls','Cs','Rp','Lp','Cp']:
-            setattr(self, p, params.pop(p, getattr(self, p)))
+            setattr(self, p, params.get(p, getattr(self, p)))
             
         def get1S(f):
             self.f = f
-- 
2.43.0


From d5a4534c46fe4050cbc0430d31ae6b000bbc042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 07/87] fix: len(rfRLC) failed after set() had cleared the
 S-matrix

---
 src/pyRFtk/rfRLC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index a91a10c..7b09b6b 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -147,7 +147,7 @@ class rfRLC():
     # _ _ l e n _ _
     #
     def __len__(self):
-        return len(self.S)
+        return len(self.ports)
     
     #===========================================================================
     #
-- 
2.43.0


From a1ba159f66bca5eb56c63ba124d5b0c89ce81d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 08/87] fix: rfObject.maxV compared complex voltages instead of
 their magnitude

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 924e4ae..045c016 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -627,7 +627,7 @@ class rfObject():
         Zbase = self.Zbase if Zbase == None else Zbase
         Ea = [E[p] for p in self.ports]
         Eb = self.getS(f, Zbase=Zbase) @ Ea   # implicitly updates and solves the circuit
-        Vi = Ea + Eb
+        Vi = np.abs(Ea + Eb)
         maxVi = np.max(Vi)
         k = np.where(Vi == maxVi)[0][0]
         
-- 
2.43.0


From 957b7458def63a5ffc444ea682b9af7cead9b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 09/87] fix: rfCircuit.terminate of a terminated port kept the
 stale S-matrix

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index bb09306..85c480f 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -916,7 +916,7 @@ class rfCircuit(rfBase):
         
             idxA, idxB, eqn = self.T[port]
             self.M[eqn, idxB] = rho
-            self.invM = None
+            self.invM, self.S = None, None
         
         elif port in self.E:
             # this port was and external port
-- 
2.43.0


From aef34d5e1c6de432222fb78c142c6e5e0bbb29e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 10/87] fix: rfCircuit.getS ignored new params at the last
 evaluated frequency

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 85c480f..56292ad 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1276,7 +1276,7 @@ class rfCircuit(rfBase):
                            ('flag sNp set to False' if 'sNp' in flags else '(why?)'))
                     tLogger.debug(ident(f'not using sNp: {msg}'))
                     
-                if f != self.f or self.S is None or self.flags != flags:
+                if f != self.f or self.S is None or self.flags != flags or params:
                     
                     # we need to recompute the S-matrix
                     
-- 
2.43.0


From 98ecb048696f5dd4021889e3ff24e7d0e54524b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 11/87] fix: touchstone 2-port coefficient order was not undone
 by ReadTSF nor applied by WriteTSF

---
 src/pyRFtk/ReadTSF.py  | 2 ++
 src/pyRFtk/WriteTSF.py | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 80b2731..f9127f3 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -105,6 +105,8 @@ def ReadTSF(src, **kwargs):
     # reshape the collected coeffcients
     N = int(round(np.sqrt( len(Ss[0]) )))
     Ss = np.array(Ss).reshape((len(fs), N, N))
+    if N == 2: # touchstone convention for 2-ports: 11, 21, 12, 22
+        Ss = np.transpose(Ss, (0, 2, 1))
     
     # analyse the format string: 
     #  for unnormalized data (R missing) Zbase is set to None
diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index e03ba21..b4b017a 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -28,9 +28,8 @@ def WriteTSF(object, path2tsf=None,
         comments   : multi-line string
         
         
-        note (I believe) the touchstone specification 1.1 transposes the 
-             the coefficients for .s2p (2-ports): this is not implemented here
-             as it is (apparently) not done in ReadTSF. 
+        note the touchstone specification 1.1 transposes the coefficients for
+             .s2p (2-ports) as do ReadTSF and rfBase.tsf2str. 
         
     """
 
@@ -100,6 +99,8 @@ def WriteTSF(object, path2tsf=None,
     for k,fk in enumerate(fs):
         s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
         d = object.getS(fk, Zbase=zref)
+        if nports == 2: # touchstone convention for 2-ports
+            d = np.transpose(d)
         for kr in range(nports):
             for kc in range(nports):
                 dij = d[kr,kc]
-- 
2.43.0


From d352128a40e8ad37503eff952afee26ba62332e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 12/87] fix: ReadTSF failed on a touchstone without R (its
 default reference is 50 Ohm)

---
 src/pyRFtk/ReadTSF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index f9127f3..35e4db2 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -112,6 +112,7 @@ def ReadTSF(src, **kwargs):
     #  for unnormalized data (R missing) Zbase is set to None
     items = tformat[1:].upper().split()[::-1] # note we reverse the order here
     datatype, datafmt, funit, Zbase = 'S', 'MA', 'GHZ', None 
+    Zlist = []
     while len(items):
         kw = items.pop()
         if kw in ['S', 'Y', 'Z']:
@@ -405,7 +406,7 @@ def ReadTSF(src, **kwargs):
             # print(f'have converted the data from {Zbase} in the touchstone  to {TZbase}')
     
         elif Zbase is None: # No Zcs and Zbase is None:
-            Ss = ConvertGeneral(TZbase if TZbase else 50., Ss, Zcs, 'P', 'V')
+            Ss = ConvertGeneral(TZbase if TZbase else 50., Ss, 50., 'P', 'V')
         
         else:
             logit['ERROR'] and tLogger.error(f'len(Zcs)[{len(Zcs)}] != N[{N}]')
-- 
2.43.0


From 78c9c17e2bfcd9b602b170956a09575de1d078bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 13/87] fix: ReadTSF debug output failed when comments were
 supplied

---
 src/pyRFtk/ReadTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 35e4db2..fc2ce28 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -49,7 +49,7 @@ def ReadTSF(src, **kwargs):
         tLogger.debug(ident(f'funit  = {Tfunit}'))
         tLogger.debug(ident(f'Tports = {Tports}'))
         
-        for k, cmt in Tcomments:
+        for k, cmt in enumerate(Tcomments):
             tLogger.debug(ident(f'Tcomments[{k:4d}] = "{cmt}"'))
     
     # process the source input 
-- 
2.43.0


From e6b66ce3c62269ccc0c457ff84f1a4e6fbf7a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 14/87] fix: rfBase.tsf2str did not follow the touchstone
 defaults (GHz, MA) for items missing in tfmt

---
 src/pyRFtk/rfBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index fe8ba6c..62aeeb5 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -322,7 +322,7 @@ class rfBase():
             raise TypeError(f'{whoami(__package__)}: ' # @UndefinedVariable
                             f'Unknown kwargs {", ".join([kw for kw in kwargs])}') 
                     
-        elmfmt, mtype, Zref, fscale, funit = 'MA', 'S', 50.0, 1.0, 'MHZ'
+        elmfmt, mtype, Zref, fscale, funit = 'MA', 'S', 50.0, 1e9, 'GHZ'
         fscales = {'HZ': 1, 'KHZ':1e3, 'MHZ':1e6, 'GHZ':1e9}
         elstrs = {
             'RI': lambda z: '  %11.8f %11.8f' % (z.real, z.imag),
@@ -330,6 +330,7 @@ class rfBase():
             'DB': lambda z: '  %15.10f %9.4f' % (20*np.log10(z).real, 
                                                  np.angle(z,deg=1)),
         }
+        elstr = elstrs[elmfmt]
         
         fmts = tfmt.upper().split()
         if fmts[0] == '#':
-- 
2.43.0


From b7088d49b18cf71c235c77f9ffde9b8837d8bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 15/87] fix: rfBase.tsf2str rounded the frequencies to the
 decimals of their step

---
 src/pyRFtk/rfBase.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 62aeeb5..537b9dd 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -394,20 +394,12 @@ class rfBase():
         freq_fmt_len = 10
         
         if True:
-            # find the optimal frequency format that is able to represent the
-            # smallest frequency step as well as the maximun frequency
-            
-            if len(Fs) > 1:
-                for df in list(set(sorted(np.diff(Fs)))):
-                    if df > 0.:
-                        break
-            else:
-                df = Fs[0]
+            # find the optimal frequency format that is able to represent all
+            # the frequencies
             
             m0, dm = 15, 3
             m = m0
-            df0 = round(df,m)
-            while m >= 0 and df0 == round(df,m):
+            while m >= 0 and all(round(F,m0) == round(F,m) for F in Fs):
                 m -= dm
             m += dm
             freq_frac = '.%df' % m
-- 
2.43.0


From 28101d4a75a0d589baef26aeceb8caedb37b086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 16/87] fix: WriteTSF ignored the reference impedance of a
 lower case format

---
 src/pyRFtk/WriteTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index b4b017a..458b7ef 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -50,7 +50,7 @@ def WriteTSF(object, path2tsf=None,
         zref = float(
                 re.findall(
                     r'^.*?R\s*([-+]?(?:\d*[\.])?\d+(?:[eE][-+]?\d+)?).*?$',
-                    tsf_format
+                    tsf_format.upper()
                 )[0]
                )
     except:
-- 
2.43.0


From beafa14cf2ae30f20c09d6c2f5f36df48e2e49bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 17/87] fix: WriteTSF wrote S-parameters under a Z or Y header

---
 src/pyRFtk/WriteTSF.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 458b7ef..d2bba02 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -4,6 +4,8 @@ import numpy as np
 import re
 import time
 
+from .Z_from_S import Z_from_S
+from .Y_from_S import Y_from_S
 
 
 #===============================================================================
@@ -56,6 +58,8 @@ def WriteTSF(object, path2tsf=None,
     except:
         zref = 50.0
         
+    mtype = ([tk for tk in tsf_format.upper().split() if tk in 'SYZ'] + ['S'])[0]
+        
     fmt = re.findall('(RI|MA|DB)',tsf_format.upper())
     if len(fmt) == 0:
         fmt = 'DB'  # default
@@ -101,6 +105,10 @@ def WriteTSF(object, path2tsf=None,
         d = object.getS(fk, Zbase=zref)
         if nports == 2: # touchstone convention for 2-ports
             d = np.transpose(d)
+        if mtype == 'Z':
+            d = Z_from_S(d, zref)
+        elif mtype == 'Y':
+            d = Y_from_S(d, zref)
         for kr in range(nports):
             for kc in range(nports):
                 dij = d[kr,kc]
-- 
2.43.0


From 581d045527fd98bb043f77e98622b7e9fa472fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 18/87] fix: WriteTSF wrote dB data when the format names none
 (the touchstone default is MA)

---
 src/pyRFtk/WriteTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index d2bba02..a2aee3e 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -62,7 +62,7 @@ def WriteTSF(object, path2tsf=None,
         
     fmt = re.findall('(RI|MA|DB)',tsf_format.upper())
     if len(fmt) == 0:
-        fmt = 'DB'  # default
+        fmt = 'MA'  # touchstone default
     elif len(fmt) == 1:
         fmt = fmt[0]
     else:
-- 
2.43.0


From 603aa31df07f6b78ad3dd74d2b41ca0de6245d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 19/87] fix: rfObject kept interpolating the old data after its
 table had changed

---
 src/pyRFtk/rfObject.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 045c016..972bb6e 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -344,6 +344,7 @@ class rfObject():
     #  _ _ s e t i t e m _ _
     #
     def __setitem__(self, k, value):
+        self.interpOK = False
         self.fs[k] = value[0]
         self.Ss[k,:,:] = value[1]
     
@@ -420,6 +421,7 @@ class rfObject():
         else:
             idxs = np.array(self.ports).argsort()
         
+        self.interpOK = False
         self.ports = [self.ports[k] for k in idxs]
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
         self.Zcs = self.Zcs[:,idxs]
@@ -513,6 +515,7 @@ class rfObject():
             newZbase: target reference impedance 
         """
         
+        self.interpOK = False
         self.Ss = ConvertGeneral(newZbase, self.Ss, self.Zbase, 'V', 'V')
         self.Zbase = newZbase
     
@@ -645,6 +648,7 @@ class rfObject():
     #  r e a d _ t s f 
     #
     def read_tsf(self, src, **kwargs):
+        self.interpOK = False
         r = ReadTSF(src, **kwargs)
         self.fs = r['fs']   # * (FUNITS[r['funit'].upper()] 
                             #  / FUNITS[self.funit.upper()])
-- 
2.43.0


From 9f398897489b3829dd844d5a8fcb058cc83bc09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 20/87] fix: rfObject could not interpolate when frequencies
 were not set in increasing order

---
 src/pyRFtk/rfObject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 972bb6e..f918bd0 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -439,8 +439,10 @@ class rfObject():
             self.fs = self.fs[idxs]
             self.Ss = self.Ss[idxs,:,:]
                         
-            self.Zcs = self.Zcs[idxs,:]
-            self.Gms = self.Gms[idxs,:]
+            if len(self.Zcs) == len(idxs):
+                self.Zcs = self.Zcs[idxs,:]
+            if len(self.Gms) == len(idxs):
+                self.Gms = self.Gms[idxs,:]
             
             self.sorted = True
         
-- 
2.43.0


From 569c2bb71a80d06965f67e0c5e65c8eadb6c2082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 21/87] fix: rfObject believed its table sorted when only its
 last two frequencies were

---
 src/pyRFtk/rfObject.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index f918bd0..26dbcc8 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -347,6 +347,7 @@ class rfObject():
         self.interpOK = False
         self.fs[k] = value[0]
         self.Ss[k,:,:] = value[1]
+        self.sorted = bool(np.all(np.diff(self.fs) > 0))
     
     #===========================================================================
     #
@@ -617,9 +618,7 @@ class rfObject():
         self.Ss = np.append(self.Ss, S, axis=0)
         
         # do not sort each time
-        self.sorted = self.sorted and (
-            (len(self.fs) == 1) or (self.fs[-2] < self.fs[-1])
-        )
+        self.sorted = bool(np.all(np.diff(self.fs) > 0))
         
     #===========================================================================
     #
@@ -655,6 +654,7 @@ class rfObject():
         self.fs = r['fs']   # * (FUNITS[r['funit'].upper()] 
                             #  / FUNITS[self.funit.upper()])
         self.Ss = r['Ss']
+        self.sorted = bool(np.all(np.diff(self.fs) > 0))
         self.ports = r['ports'] if not self.ports else self.ports
         self.Zbase = r['Zbase']
         self.part = r['part']
-- 
2.43.0


From 7d0d8cca0c2dab57baba0828a59834a4875dbc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 22/87] fix: rfObject.sortports left the port positions behind
 and failed without port impedances

---
 src/pyRFtk/rfObject.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 26dbcc8..6050a33 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -425,8 +425,11 @@ class rfObject():
         self.interpOK = False
         self.ports = [self.ports[k] for k in idxs]
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
-        self.Zcs = self.Zcs[:,idxs]
-        self.Gms = self.Gms[:,idxs]
+        self.xpos = [self.xpos[k] for k in idxs]
+        if len(self.Zcs):
+            self.Zcs = self.Zcs[:,idxs]
+        if len(self.Gms):
+            self.Gms = self.Gms[:,idxs]
     
     #===========================================================================
     #
-- 
2.43.0


From eac3d21dba43d9ca7411be091336f5ad6e65f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 23/87] fix: rfObject.deembed failed for scalar and dict values
 and consumed the caller's dict

---
 src/pyRFtk/rfObject.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 6050a33..53e722f 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -709,6 +709,7 @@ class rfObject():
         """
           
         self.interpOK = False      
+        ports = dict(ports) # do not consume the caller's dict
         
         for kp, port in enumerate(self.ports):
             if port in ports:
@@ -716,12 +717,12 @@ class rfObject():
                 if isinstance(v,tuple) and len(v) == 2:
                     L, Z = v
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
-                elif isinstance(v, [int, float]):
+                elif isinstance(v, (int, float)):
                     L, Z = v, self.Zbase
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
                 elif isinstance(v, dict):
-                    v.pop('Zbase') # we need it in self.Zbase
-                    TRL = rfTRL(**v, Zbase=self.Zbase)
+                    # we need it in self.Zbase
+                    TRL = rfTRL(**dict(v, Zbase=self.Zbase))
                 else:
                     raise ValueError(
                         f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
-- 
2.43.0


From b2540572ef8af3128e7cb30a62b7dfe0461da117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 24/87] fix: rfObject.deembed took the table frequencies for Hz
 whatever funit

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 53e722f..2d79f45 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -729,7 +729,7 @@ class rfObject():
     
                 
                 for kS, (f, Sobj) in enumerate(zip(self.fs, self.Ss)):
-                    Strl = TRL.getS(f)
+                    Strl = TRL.getS(f * self.fscale)
                                         
                     qn = 1 - Strl[0,0] * Sobj[kp,kp]
                     if np.abs(qn) != 0:
-- 
2.43.0


From 67a6431bb506eca0300c7ac7e4802d7b8428ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 25/87] fix: rfCircuit.addblock raised KeyError on a port count
 mismatch of a replacement

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 56292ad..f8b0906 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -603,7 +603,7 @@ class rfCircuit(rfBase):
             if len(RFobj) != len(self.blocks[name]['object']):
                 raise ValueError(
                     f'{whoami(__package__)}: [update {name}] number of ports mismatch: ' 
-                    f'existing {len(self.blocks["object"])}, new {len(RFobj)}')
+                    f'existing {len(self.blocks[name]["object"])}, new {len(RFobj)}')
             
             #TODO: maybe some other checks are in order / necessary
             
-- 
2.43.0


From 8c9a463b35b1fd70a2fd56d647d3e000ab0f3243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 26/87] fix: rfCircuit.addblock consumed the caller's port
 mapping

---
 src/pyRFtk/rfCircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index f8b0906..b9d45f3 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -341,6 +341,7 @@ class rfCircuit(rfBase):
             ports = {} if ports is None else ports
             if isinstance(ports, dict):
                 # remap port names (note: empty dict pulls the object's portnames)
+                ports = dict(ports) # do not consume the caller's dict
                 oports = [ports.pop(_p, _p) for _p in RFobj.ports]
                 # possibly the user supplied non-existing port names
                 if ports:
@@ -624,6 +625,7 @@ class rfCircuit(rfBase):
             ports = {} if ports is None else ports
             if isinstance(ports, dict):
                 # remap port names (note: empty dict pulls the object's portnames)
+                ports = dict(ports) # do not consume the caller's dict
                 oports = [ports.pop(_p, _p) for _p in RFobj.ports]
                 # possibly the user supplied non-existing port names
                 if ports:
-- 
2.43.0


From 778d3df01544540d1f3b2162c29b36b7794f516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 27/87] fix: rfCircuit.Solution failed for nested circuits with
 remapped ports

---
 src/pyRFtk/rfCircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index b9d45f3..29ef04f 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1588,9 +1588,9 @@ class rfCircuit(rfBase):
                     # -> build the excitation to pass on to the Solution method.    
                     
                     Ek = {}
-                    for pobj in obj.ports:
+                    for pobj, pblk in zip(obj.ports, blk['ports']):
                         try:
-                            Ek[pobj] = self.tSol[f'{blkID}.{pobj}'][2]
+                            Ek[pobj] = self.tSol[f'{blkID}.{pblk}'][2]
                             # print(f'[OK] {blkID}.{pobj} -> {Ek[pobj]:7.3f}')
                         except KeyError:
                             for k, s in self.tSol.items():
-- 
2.43.0


From 5738aa8a14eed3c04d4cc103f4c2240948c230d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 28/87] fix: rfCircuit shared its port list with Portnames:
 terminate changed the caller's list, positions lost their ports, solved
 copies broke

---
 src/pyRFtk/rfCircuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 29ef04f..c5b2dcf 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -936,6 +936,7 @@ class rfCircuit(rfBase):
             self.eqns[eqn] = f'T: {port}'
             self.T[port] = idxA, idxB, eqn
             self.E.pop(port)
+            self.Portnames = [p for p in self.Portnames if p != port]
             _kp = self.ports.index(port)
             self.ports.pop(_kp)
             self.xpos.pop(_kp)
@@ -1026,10 +1027,11 @@ class rfCircuit(rfBase):
                                 f'in list of announced port names'
                             )
                 # use external port ordering
-                self.ports = self.Portnames
+                self.xpos = [self.xpos[self.ports.index(p)] for p in self.Portnames]
+                self.ports = self.Portnames[:]
                 
             else:
-                self.Portnames = self.ports                   
+                self.Portnames = self.ports[:]
                             
             for p in self.ports:                
                 self.M = np.vstack((
-- 
2.43.0


From e1138c861bd49ca3657fdd54fb90e4320b96a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 29/87] fix: rfCircuit.getpos (thus connect to a new port and
 maxV) failed for array blocks

---
 src/pyRFtk/rfCircuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index c5b2dcf..c164ca8 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -762,7 +762,8 @@ class rfCircuit(rfBase):
         except:
             kp = obj.ports.index(node)
             
-        return relpos + obj.xpos[kp]
+        # an array-like object has no positions of its own
+        return relpos + (obj.xpos[kp] if hasattr(obj,'xpos') else 0.)
                 
     #===========================================================================
     #
-- 
2.43.0


From aed4c473b7f0de8f55f63ccb7642c44dce18e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 30/87] fix: rfCircuit.maxV failed once a port created by
 connect had been used

---
 src/pyRFtk/rfCircuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index c164ca8..8a30bf3 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -760,6 +760,9 @@ class rfCircuit(rfBase):
         try:  
             kp =block['ports'].index(node)
         except:
+            if node not in obj.ports and node in getattr(obj, 'nodes', {}):
+                # a junction port that is not external anymore
+                return relpos + obj.nodes[node]
             kp = obj.ports.index(node)
             
         # an array-like object has no positions of its own
@@ -807,6 +810,7 @@ class rfCircuit(rfBase):
             # here we need to make assumptions on the position of the new port
             # -> we take the position of the first port in the list
             self.xpos.append(self.getpos(oldports[0]))
+            self.nodes[p] = self.xpos[-1]
             
         _debug_ and tLogger.debug(ident(f'self.ports = {", ".join(self.ports)}', 0))
         
-- 
2.43.0


From 75c48fe09b269b7b29ae3a02dc5b02d5b0e2d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 31/87] fix: rfCircuit.deembed did not keep the port positions
 in step with the ports

---
 src/pyRFtk/rfCircuit.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 8a30bf3..e53c1db 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -458,15 +458,17 @@ class rfCircuit(rfBase):
                     f'{whoami(__package__)}: (internal) port {ip} already exists '
                 )
             
-            # create the new internal port
-            self.waves += [f'->{ip}', f'<-{ip}']
-            self.ports.append(ip)
-                        
             if dp not in self.ports:
                 raise ValueError(
                     f'{whoami(__package__)}: (external) port {dp} does not exist'
                 )
                 
+            # create the new internal port
+            self.waves += [f'->{ip}', f'<-{ip}']
+            self.ports.append(ip)
+            self.xpos.append(self.xpos[self.ports.index(dp)])
+            self.nodes[ip] = self.xpos[-1]
+                
             idxA = self.waves.index(f'->{dp}')
             idxB = self.waves.index(f'<-{dp}')
             
@@ -482,6 +484,7 @@ class rfCircuit(rfBase):
             self.M[-1, len(self.waves)-2] = -1
             
             # remove the deembeded port
+            self.xpos.pop(self.ports.index(dp))
             self.ports.pop(self.ports.index(dp))
             
             # update the equation types
@@ -523,8 +526,9 @@ class rfCircuit(rfBase):
             self.eqns.append(f'De {ep}')
             
             # now we need to remove the remaining ports of the port list
-            self.ports.pop(self.ports.index(dp))
-            self.ports.pop(self.ports.index(ep))
+            for p in (dp, ep):
+                self.xpos.pop(self.ports.index(p))
+                self.ports.pop(self.ports.index(p))
                         
         _debug_ and tLogger.debug(ident(
             f'< [circuit.deembed]', -1
-- 
2.43.0


From 9107d17f7059a8eac106e2b2fe339a8c9148bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 32/87] fix: TLresolver took the inner surface resistance for
 the outer conductor

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 056a559..fdb7a57 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -113,7 +113,7 @@ class TLresolver():
             return self.rTL(w,x) - self.rTLI(w,x)
         
         def _rTLO__qTLO_RsO_(w,x=0):                                         #21
-            return self.qTLO(w,x) * self.RsI(w,x)
+            return self.qTLO(w,x) * self.RsO(w,x)
         
         def _rTL__A_CTL_gTL_LTL_(w,x=0):
             wL = w * self.LTL(w,x)
-- 
2.43.0


From 9326bcf017f5cf33e58e1f4ae996ab0323750fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 33/87] fix: TLresolver inverted vr = 1/sqrt(mur epsr) wrongly

---
 src/pyRFtk/resolveTLparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index fdb7a57..f7e565f 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -219,10 +219,10 @@ class TLresolver():
                 1 / np.sqrt(self.mur(w,x) * self.epsr(w,x))
             ),
             ('mur', ('vr', 'epsr'), 0., lambda w, x:                         #33
-                self.epsr(w, x) / self.vr(w, x)**2
+                1 / (self.epsr(w, x) * self.vr(w, x)**2)
             ),
             ('epsr', ('vr','mur'), 0., lambda w, x:                          #34
-                self.mur(w, x) / self.vr(w, x)**2
+                1 / (self.mur(w, x) * self.vr(w, x)**2)
             ),
             #-- ------------------------------------------------------------- --
             ('mur', ('etar', 'vr'), 0., lambda w, x:                         #35
-- 
2.43.0


From 51bacdc2dd2aa3679b0635c38a423cfa609817ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 34/87] fix: TLresolver got a negative attenuation from AdB

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index f7e565f..a972b51 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -240,7 +240,7 @@ class TLresolver():
             ),
             #-- ------------------------------------------------------------- --
             ('A', ('AdB',), 0., lambda w, x:                                 #39
-                1-10**(self.AdB(w,x)/20)
+                self.AdB(w,x) * np.log(10) / 20
             ),
             #-- ------------------------------------------------------------- --            
             # not approximations ...
-- 
2.43.0


From 1ea415a383b0eeeebadce58c766d9644c2143c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 35/87] fix: rfGTL looked for Larc in the wrong kwargs and
 never made an arc object

---
 src/pyRFtk/rfGTL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 36e5c34..9e4e58d 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -186,10 +186,10 @@ class rfGTL(rfCircuit):
                 # rfRLC object                       
                 # obsolete -- xposlist[blk] = [xpos, xpos]
                 RFobj = rfRLC(Zbase=self.Zbase,**tkwargs)
-            elif len(kwargs) == 1 and 'Larc' in kwargs:
+            elif 'Larc' in tkwargs:
                 # rfArcObject
                 # obsolete -- xposlist[blk] = [xpos, xpos]
-                RFobj = rfArcObj(kwargs['Larc'])
+                RFobj = rfArcObj(tkwargs['Larc'], ports=['1'], Zbase=self.Zbase)
             else:
                 # rfTRL object
                 # obsolete -- xposlist[blk] = [xpos, xpos + tkwargs['L']]
-- 
2.43.0


From a526e18bae3300b5ee5248aa7c13f9b8943bfaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 36/87] fix: rfBase.maxV failed for 1-port objects returning a
 scalar S (rfArcObj)

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 537b9dd..e1125e2 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -475,7 +475,7 @@ class rfBase():
         Zbase = Zbase if Zbase else self.Zbase
         S = self.getS(f, Zbase=Zbase, **kwargs)
         A = [E[p] if p in E else 0. for p in self.ports]
-        B = S @ A
+        B = np.atleast_2d(S) @ A
         absV = np.abs(A + B) 
         Vmax = np.max(absV)
         where = self.ports[list(np.where(absV == Vmax)[0])[0]]
-- 
2.43.0


From e15ad1d31f09c348c10fad4e20fe111559b578ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 37/87] fix: rfArcObj returned nan for its default infinite
 Larc

---
 src/pyRFtk/rfArcObj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index f9e0e89..6b48b3c 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -82,6 +82,7 @@ class rfArcObj(rfBase):
     def get1S(self, f):
         
         jwL = 2j * np.pi * f  * self.Larc
-        Ss = (jwL - self.Zbase) / (jwL + self.Zbase)
+        Ss = (1. + 0j if np.isinf(self.Larc) else # open (the default Larc)
+              (jwL - self.Zbase) / (jwL + self.Zbase))
         self.f, self.S = f, Ss
         return Ss
-- 
2.43.0


From c05014a9268a9c0befa34e7c7cd25324b6f37d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 38/87] fix: maxfun forgot the maximum found so far when a fit
 fell outside its window

---
 src/pyRFtk/maxfun.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyRFtk/maxfun.py b/src/pyRFtk/maxfun.py
index cd57cc5..2412fa5 100644
--- a/src/pyRFtk/maxfun.py
+++ b/src/pyRFtk/maxfun.py
@@ -64,8 +64,7 @@ def maxfun(xs, ys):
                 xymax = xy
         else:
             debug and tLogger.debug(ident('Warning result outside window'))
-            xymax = 0, 0
-            for xm, ym in zip(xs[idx:idx+3],xs[idx:idx+3]):
+            for xm, ym in zip(xs[idx:idx+3],ys[idx:idx+3]):
                 if ym > xymax[1]:
                     xymax = xm, ym
             
-- 
2.43.0


From 9964f3382689145f8bf7464f4f91ab4a8eab0ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 39/87] fix: rfTRL took f for w when spacing the nodes of a
 tapered line

---
 src/pyRFtk/rfTRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 1577ea2..213395f 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -436,7 +436,7 @@ class rfTRL():
 
                     xs = [0.]
                     while xs[-1] < self.L:
-                        xs.append(xs[-1] + wavlen(f,xs[-1])/self.dx)
+                        xs.append(xs[-1] + wavlen(w,xs[-1])/self.dx)
                     
                     # may have overshot the end point so we rescale everything
                     xs = np.array(xs) * self.L/xs[-1]
-- 
2.43.0


From 1eb416f0bb7864ac8cf6e35f2ae53f4f72abd860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 40/87] fix: _check_3D_shape_ raised TypeError instead of
 ValueError for wrong shapes

---
 src/pyRFtk/_check_3D_shape_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/_check_3D_shape_.py b/src/pyRFtk/_check_3D_shape_.py
index 14b1719..196f281 100644
--- a/src/pyRFtk/_check_3D_shape_.py
+++ b/src/pyRFtk/_check_3D_shape_.py
@@ -25,7 +25,7 @@ def _check_3D_shape_(M3):
         #    a square 2D list or array which is reshaped to (1, N, N), N = len(list)
         #    a list or aray of square 2D lists / arrays of the shape (M, N, N)
         #
-        raise ValueError('_check_3d_shape_: Unexpected shape: %r' % (M3.shape))
+        raise ValueError('_check_3d_shape_: Unexpected shape: %r' % (M3.shape,))
 
     return L, M3
     
-- 
2.43.0


From 7a323bb27d352e467506e4f6111b385edaf43f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 41/87] fix: excitations were taken in the port order before
 the announced order was applied

---
 src/pyRFtk/rfCircuit.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index e53c1db..e5c303e 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1437,6 +1437,9 @@ class rfCircuit(rfBase):
         ))
         Zbase = self.Zbase if Zbase is None else Zbase
         
+        # this also completes the circuit (and puts the ports in announced order)
+        S = self.getS(f,Zbase,flags=flags)
+        
         # incident voltage waves @  Zbase to the circuits feed ports
         Ea = [E[p] for p in self.ports]
         if _debug_ :
@@ -1444,7 +1447,7 @@ class rfCircuit(rfBase):
             tLogger.debug(ident(f'Ea = {Ea}'))
         
         # reflected voltage waves @ Zbase from the circuit's feed ports
-        Eb = self.getS(f,Zbase,flags=flags) @ Ea  # (implicitly updates and solves the circuit)
+        Eb = S @ Ea
         
         # incident voltage waves @ self.Zbase
         Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2  
@@ -1502,14 +1505,17 @@ class rfCircuit(rfBase):
         
         Zbase = self.Zbase if Zbase is None else Zbase
         
+        # this also completes the circuit (and puts the ports in announced order);
+        # unless gtl is True the sNp based value for S is returned
+        S = self.getS(f,Zbase,flags=flags)
+        
         # incident voltage waves @  Zbase to the circuits feed ports
         # Ea is a list of excitations in the order of definition of the 
         #    ports of the object
         Ea = [E[p] for p in self.ports]
         
         # reflected voltage waves @ Zbase from the circuit's feed ports
-        # unless gtl is True the sNp based value for S is returned
-        Eb = self.getS(f,Zbase,flags=flags) @ Ea  # (implicitly updates and solves the circuit)
+        Eb = S @ Ea
         
         # incident voltage waves @ self.Zbase
         Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2  
@@ -1709,6 +1715,10 @@ class rfCircuit(rfBase):
             
         Zbase = self.Zbase if Zbase is None else Zbase
         
+        # implicitly updates and solves the circuit (and puts the ports in announced
+        # order) except if a sNp is present but in that case ...
+        S = self.getS(f, Zbase, flags=flags)
+        
         try:
             Ea = [E[p] for p in self.ports]
         except KeyError:
@@ -1718,8 +1728,7 @@ class rfCircuit(rfBase):
             ) from None
         
         # print('pyRFtk2.circuit.maxV')
-        Eb = self.getS(f, Zbase, flags=flags) @ Ea   # implicitly updates and solves the circuit
-                                        # except if a sNp is present but in that case ...
+        Eb = S @ Ea
 
         # Ei are the forward waves into the circuit's ports at self.Zbase
         Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2 
-- 
2.43.0


From f5e4cbb452e7f44066d201bbe3a74c18ddcb8fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:03 +0000
Subject: [PATCH 42/87] fix: circuit extended after an evaluation kept the
 equations of its former external ports

---
 src/pyRFtk/rfCircuit.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index e5c303e..169957d 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -78,6 +78,7 @@ class rfCircuit(rfBase):
         
         # why Portnames ? ports is processed already by rfBase
         self.Portnames = kwargs.pop('Portnames', [])
+        self.autonames = False # True when extS took the Portnames from the ports
         
         if kwargs and type_rfCircuit:
             msg = f'unprocessed kwargs: {", ".join([kw for kw in kwargs])}'
@@ -380,6 +381,28 @@ class rfCircuit(rfBase):
         
         return N, oports
 
+    #===========================================================================
+    #
+    # _ r e o p e n _
+    #
+    def _reopen_(self):
+        """removes the equations of the external ports which were added when the
+        circuit was evaluated: they do not hold for the circuit to be extended
+        """
+        if self.E:
+            idxEs = list(self.E.values())
+            rows = [k for k in range(self.M.shape[0]) if k not in idxEs]
+            self.M = self.M[rows,:]
+            self.eqns = [self.eqns[k] for k in rows]
+            self.T = dict((p, (idxA, idxB, rows.index(eqn))) 
+                          for p, (idxA, idxB, eqn) in self.T.items())
+            self.E = {}
+            self.idxEs = []
+            
+        if self.autonames:
+            self.Portnames = []
+            self.autonames = False
+        
     #===========================================================================
     #
     # d e e m b e d
@@ -443,6 +466,7 @@ class rfCircuit(rfBase):
         
         # add the columns for the internal ports
         
+        self._reopen_()
         self.M = np.hstack((
                     self.M,
                     np.zeros((self.M.shape[0],2*len(IntPorts)),dtype=complex)
@@ -677,6 +701,7 @@ class rfCircuit(rfBase):
         # else:
         #     xpos += np.zeros(len(oports))
             
+        self._reopen_()
         self.blocks[name] = {
             'params' : params,
             'ports'  : oports,
@@ -839,6 +864,7 @@ class rfCircuit(rfBase):
         _debug_ and tLogger.debug(ident(f'self.ports -> {", ".join(self.ports)}', 0))
                 
         # now we need to expand M for the new variables
+        self._reopen_()
         self.M = np.hstack((
             self.M, np.zeros((self.M.shape[0],2*len(newports)))
         ))
@@ -1041,6 +1067,7 @@ class rfCircuit(rfBase):
                 
             else:
                 self.Portnames = self.ports[:]
+                self.autonames = True
                             
             for p in self.ports:                
                 self.M = np.vstack((
-- 
2.43.0


From 335571c01ad62c962a4ddfcdaf099ade65e52df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 43/87] fix: unsolved circuit with announced ports was added as
 a block in another port order

---
 src/pyRFtk/rfCircuit.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 169957d..a44dfca 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -381,6 +381,17 @@ class rfCircuit(rfBase):
         
         return N, oports
 
+    #===========================================================================
+    #
+    # _ a n n o u n c e d _
+    #
+    def _announced_(self):
+        """puts the free ports in the announced order if they are the announced ones
+        """
+        if sorted(self.Portnames) == sorted(self.ports):
+            self.xpos = [self.xpos[self.ports.index(p)] for p in self.Portnames]
+            self.ports = self.Portnames[:]
+        
     #===========================================================================
     #
     # _ r e o p e n _
@@ -595,6 +606,10 @@ class rfCircuit(rfBase):
         self.S = None
         self.invM = None
         
+        # the ports of an unsolved circuit may still have to be put in their order
+        if isinstance(RFobj, rfCircuit):
+            RFobj._announced_()
+        
         if '.' in name:
             _debug_ and logident(f'---> replacing {name}')
             name, subblock = name.split('.',1)
-- 
2.43.0


From 77337b95b286722672155f4c1f37793e68503a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 44/87] fix: rfCircuit.set rejected the documented dict of
 paths and values

---
 src/pyRFtk/rfCircuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index a44dfca..089dd42 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1220,6 +1220,9 @@ class rfCircuit(rfBase):
                     vk = largs.pop(0)
                     kwargs = dict([(ak,vk)], **kwargs)
                 
+                elif isinstance(ak,dict):
+                    kwargs = dict(ak, **kwargs)
+                
                 else:
                     raise ValueError(
                         f'{whoami(__package__)}: {self.Id} '
-- 
2.43.0


From a2fa36c5762acf4e099607bceb93c5424b88c491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 45/87] fix: rfCircuit.set failed with debug logging for nested
 dicts, and for an empty dict

---
 src/pyRFtk/rfCircuit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 089dd42..2d2f946 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1279,10 +1279,10 @@ class rfCircuit(rfBase):
             except:
                 raise
             
-            attr = [kw for kw in val][0]
-            debug and logident(
-                f'{obj.Id}.{attr} -> {getattr(obj,attr)}'
-            )
+            if debug:
+                for attr in val:
+                    # attr may also be (the path to) a deeper nested object
+                    logident(f'{obj.Id}.{attr} -> {getattr(obj,attr,val[attr])}')
                        
         if modified:
             self.invM = None # mark the circuit as not solved
-- 
2.43.0


From c5159fc01a974aea2127df9906451951c1069485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 46/87] fix: adding an array as a block failed with debug
 logging

---
 src/pyRFtk/rfCircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 2d2f946..de39beb 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -328,7 +328,7 @@ class rfCircuit(rfBase):
         _debug_ = logit['DEBUG'] 
         _debug_ and tLogger.debug(ident(
             f'> [circuit._substports] '
-            f'name= {name}, RFobj= {RFobj.Id}, '
+            f'name= {name}, RFobj= {getattr(RFobj,"Id",type(RFobj).__name__)}, '
             f'ports= {ports}' ,
             1
         ))
@@ -598,7 +598,7 @@ class rfCircuit(rfBase):
         _debug_ = logit['DEBUG'] 
         _debug_ and tLogger.debug(ident(
             f'> [circuit.addblock] '
-            f'name= {name}, RFobj= {RFobj.Id}, '
+            f'name= {name}, RFobj= {getattr(RFobj,"Id",type(RFobj).__name__)}, '
             f'ports= {ports}, params={params}, kwargs= {kwargs}',
             1
         ))
-- 
2.43.0


From 4351ab102b3f97a4b855abb9197f153d45603b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 47/87] fix: logident failed for an empty line
 (rfCircuit.findObj with debug logging)

---
 src/pyRFtk/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/config.py b/src/pyRFtk/config.py
index d9cf782..265a179 100644
--- a/src/pyRFtk/config.py
+++ b/src/pyRFtk/config.py
@@ -135,7 +135,7 @@ def logident(message, printargs=False, stacklev=2):
     curframe = inspect.currentframe()
     calframe = inspect.getouterframes(curframe, stacklev)
 
-    if message[0] == '>':
+    if message[:1] == '>':
         msg = ident(
             f'> '+calframe[stacklev-1][3]+' '+(message[1:].lstrip().split() + [''])[0], +1)
         logident.stack.append(calframe[stacklev-1][3])
@@ -166,7 +166,7 @@ def logident(message, printargs=False, stacklev=2):
                 for kw in values[kwargs]:
                     flog(ident(f'    {kw} : {strval(values[kwargs][kw])}'), stacklevel=stacklev)
             
-    elif message[0] == '<':
+    elif message[:1] == '<':
         clr = '< '+ (logident.stack.pop() if len(logident.stack) else '**stack err**')
         msg = ident(clr, -1)
         flog(msg, stacklevel=stacklev)
-- 
2.43.0


From 48f3aa0d95e97a70e9f046c8b24ea666442ea348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 48/87] fix: str of a circuit with an array block failed
 (rfCircuit.findObj with debug logging)

---
 src/pyRFtk/rfCircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index de39beb..f5c0ab6 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -198,8 +198,8 @@ class rfCircuit(rfBase):
                         s +=  f'|   {blkID}: \n'
                         #fixme: embellish this type of block
                         mx = max([len(_p) for _p in blk['ports']])
-                        for _p, _x in zip(blk['ports'], blk['xpos']):
-                            s += f'|   |   {_p:{mx+1}s} @ {_x:7.4f}m\n'
+                        for _p in blk['ports']:
+                            s += f'|   |   {_p:{mx+1}s} @ {blk["xpos"]:7.4f}m\n'
                         s += f'|   |\n'
 
                         s += f'+   fixed numpy array like at {thisid}\n'
-- 
2.43.0


From db7f200d1636fbc02c8d54f4cc7f619ba8b083b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 49/87] fix: port and node positions did not follow set() and
 replaced blocks

---
 src/pyRFtk/rfCircuit.py | 90 ++++++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 45 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index f5c0ab6..089b934 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -389,7 +389,6 @@ class rfCircuit(rfBase):
         """puts the free ports in the announced order if they are the announced ones
         """
         if sorted(self.Portnames) == sorted(self.ports):
-            self.xpos = [self.xpos[self.ports.index(p)] for p in self.Portnames]
             self.ports = self.Portnames[:]
         
     #===========================================================================
@@ -501,8 +500,7 @@ class rfCircuit(rfBase):
             # create the new internal port
             self.waves += [f'->{ip}', f'<-{ip}']
             self.ports.append(ip)
-            self.xpos.append(self.xpos[self.ports.index(dp)])
-            self.nodes[ip] = self.xpos[-1]
+            self.nodes[ip] = dp # its position is the one of the deembedded port
                 
             idxA = self.waves.index(f'->{dp}')
             idxB = self.waves.index(f'<-{dp}')
@@ -519,7 +517,6 @@ class rfCircuit(rfBase):
             self.M[-1, len(self.waves)-2] = -1
             
             # remove the deembeded port
-            self.xpos.pop(self.ports.index(dp))
             self.ports.pop(self.ports.index(dp))
             
             # update the equation types
@@ -562,7 +559,6 @@ class rfCircuit(rfBase):
             
             # now we need to remove the remaining ports of the port list
             for p in (dp, ep):
-                self.xpos.pop(self.ports.index(p))
                 self.ports.pop(self.ports.index(p))
                         
         _debug_ and tLogger.debug(ident(
@@ -762,15 +758,6 @@ class rfCircuit(rfBase):
         self.eqns += [f'S{"[" if k==0 else "]" if k == len(oports)-1 else "+"}' 
                       f' {name}.{p}' for k, p in enumerate(oports)]
         
-        # update the self.xpos
-        # self.xpos = []
-        if hasattr(RFobj,'xpos'):
-            for p, x in zip(oports, RFobj.xpos):
-                self.xpos.append(relpos + x)
-        else:
-            for p in oports:
-                self.xpos.append(relpos)
-                
         _debug_ and tLogger.debug(ident(
             f'< [circuit.addblock] (inserted a new block)', -1
         ))
@@ -787,30 +774,48 @@ class rfCircuit(rfBase):
 
         :param node: The node
         """
-        relpos, obj = 0., self
-        while '.' in node:
-            try:
-                onode = node # belts and braces :)
-                blk, node = (node.split('.',1)+[None])[:2]
-                block = obj.blocks[blk]
-                relpos += block['xpos']
-                obj = block['object']
-            except AttributeError: # because obj is not a circuit (= no .blocks)
-                node = onode
-                break
-            except KeyError:
-                # because the node's toplevel block is this self self ?
-                return self.getpos(node)
-        try:  
-            kp =block['ports'].index(node)
-        except:
-            if node not in obj.ports and node in getattr(obj, 'nodes', {}):
-                # a junction port that is not external anymore
-                return relpos + obj.nodes[node]
-            kp = obj.ports.index(node)
+        if node in self.nodes:
+            # a port created by connect or deembed is at the port it was joined to
+            return self.getpos(self.nodes[node])
+        
+        blk, _, port = node.partition('.')
+        if blk not in self.blocks:
+            if port:
+                # the node's toplevel block is this self ?
+                return self.getpos(port)
+            raise ValueError(f'{whoami(__package__)}: unknown node {node}')
+            
+        block = self.blocks[blk]
+        obj, relpos = block['object'], block['xpos']
+        
+        if port in block['ports']:
+            if not hasattr(obj, 'xpos'):
+                # an array-like object has no positions of its own
+                return relpos
+            kp = block['ports'].index(port)
+        elif hasattr(obj, 'getpos'):
+            # a node inside the block
+            return relpos + obj.getpos(port)
+        else:
+            kp = obj.ports.index(port)
             
-        # an array-like object has no positions of its own
-        return relpos + (obj.xpos[kp] if hasattr(obj,'xpos') else 0.)
+        return relpos + (obj.getpos(obj.ports[kp]) if hasattr(obj, 'getpos')
+                         else obj.xpos[kp])
+        
+    #===========================================================================
+    #
+    # x p o s
+    #
+    @property
+    def xpos(self):
+        """the positions of the external ports: these follow from the actual
+           positions and lengths of the blocks
+        """
+        return [self.getpos(p) for p in self.ports]
+    
+    @xpos.setter
+    def xpos(self, xpos):
+        pass # rfBase.__init__ sets a default
                 
     #===========================================================================
     #
@@ -853,8 +858,7 @@ class rfCircuit(rfBase):
             self.ports.append(p)
             # here we need to make assumptions on the position of the new port
             # -> we take the position of the first port in the list
-            self.xpos.append(self.getpos(oldports[0]))
-            self.nodes[p] = self.xpos[-1]
+            self.nodes[p] = oldports[0]
             
         _debug_ and tLogger.debug(ident(f'self.ports = {", ".join(self.ports)}', 0))
         
@@ -873,7 +877,6 @@ class rfCircuit(rfBase):
             if _p not in newports:
                 _kp = self.ports.index(_p)
                 self.ports.pop(_kp)
-                self.xpos.pop(_kp)
                 _debug_ and tLogger.debug(ident(f'deleted port {_p}', 0))
                 
         _debug_ and tLogger.debug(ident(f'self.ports -> {", ".join(self.ports)}', 0))
@@ -989,7 +992,6 @@ class rfCircuit(rfBase):
             self.Portnames = [p for p in self.Portnames if p != port]
             _kp = self.ports.index(port)
             self.ports.pop(_kp)
-            self.xpos.pop(_kp)
             self.invM = None
             self.S = None
                         
@@ -1011,7 +1013,6 @@ class rfCircuit(rfBase):
             try:
                 _kp = self.ports.index(port)
                 self.ports.pop(_kp)
-                self.xpos.pop(_kp)
                 
             except IndexError:
                 raise ValueError(
@@ -1077,7 +1078,6 @@ class rfCircuit(rfBase):
                                 f'in list of announced port names'
                             )
                 # use external port ordering
-                self.xpos = [self.xpos[self.ports.index(p)] for p in self.Portnames]
                 self.ports = self.Portnames[:]
                 
             else:
@@ -1750,8 +1750,8 @@ class rfCircuit(rfBase):
         #     raise ValueError(f'{whoami(__package__)}: {msg}')
             
         ppos = dict([(f'{Id}.{_p}', 
-                      (self.xpos[_kp] if isinstance(self.xpos[_kp], (float,int)) else 0.) + relpos)
-                      for _kp, _p in enumerate(self.ports)])
+                      (_x if isinstance(_x, (float,int)) else 0.) + relpos)
+                      for _p, _x in zip(self.ports, self.xpos)])
         if _debug_:
             logident('ppos = {')
             for _key, _val in ppos.items():
-- 
2.43.0


From fc52f8d472987d9ab4fc330af43888644fc8b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 50/87] fix: rfObject.setS had no effect for a frequency that
 was already tabulated

---
 src/pyRFtk/rfObject.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 2d79f45..e46c29a 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -617,8 +617,14 @@ class rfObject():
             # we should never come here
             raise SystemError(f'{whoami}: Shape of S does not match ')
                 
-        self.fs = np.append(self.fs,[f])
-        self.Ss = np.append(self.Ss, S, axis=0)
+        # a frequency that is already tabulated gets the new S-matrix
+        for fk, Sk in zip(f, S):
+            known = [k for k, fo in enumerate(self.fs) if fo == fk]
+            if known:
+                self.Ss[known] = Sk
+            else:
+                self.fs = np.append(self.fs, [fk])
+                self.Ss = np.append(self.Ss, [Sk], axis=0)
         
         # do not sort each time
         self.sorted = bool(np.all(np.diff(self.fs) > 0))
-- 
2.43.0


From 2d956fd3735741651f0e4b94d352bd045e746a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 51/87] fix: set that failed for one of several attributes left
 stale results

---
 src/pyRFtk/rfCircuit.py | 12 +++++++-----
 src/pyRFtk/rfTRL.py     |  3 +--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 089b934..d9e36d8 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1277,18 +1277,20 @@ class rfCircuit(rfBase):
                 )
             
             except:
+                # some attributes may have been set already
+                self.invM, self.f, self.S = None, None, None
                 raise
             
+            if modified:
+                self.invM = None # mark the circuit as not solved
+                self.f = None
+                self.S = None
+            
             if debug:
                 for attr in val:
                     # attr may also be (the path to) a deeper nested object
                     logident(f'{obj.Id}.{attr} -> {getattr(obj,attr,val[attr])}')
                        
-        if modified:
-            self.invM = None # mark the circuit as not solved
-            self.f = None
-            self.S = None
-            
         # removes the processed kwargs 
         for kw in processed:
             kwargs.pop(kw)
diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 213395f..e8a3f72 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -348,6 +348,7 @@ class rfTRL():
                 f'{whoami(__package__)}: not possible because the transmission '  # @UndefinedVariable
                              'line parameters are not constant')
         modified = False
+        self.solved = {} # also when a parameter turns out to be unknown
         for kw, val in kwargs.items():
             if not hasattr(self, kw):
                 raise ValueError(
@@ -359,8 +360,6 @@ class rfTRL():
             if kw == 'L':
                 self.xpos = [self.xpos[0], self.L + self.xpos[0]]
         
-        self.solved = {}
-        
         return modified
     
     #===========================================================================
-- 
2.43.0


From ff32e66760b91527790c5487b92221fb97262072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 52/87] fix: logging with an unnamed (integer) logging level
 raised KeyError

---
 src/pyRFtk/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/config.py b/src/pyRFtk/config.py
index 265a179..d09f3a8 100644
--- a/src/pyRFtk/config.py
+++ b/src/pyRFtk/config.py
@@ -130,7 +130,7 @@ def logident(message, printargs=False, stacklev=2):
         'WARNING'  : tLogger.warning,
         'ERROR'    : tLogger.error,
         'CRITICAL' : tLogger.critical
-    }[logging._levelToName[tLogger.getEffectiveLevel()]]
+    }.get(logging._levelToName.get(tLogger.getEffectiveLevel()), tLogger.debug)
         
     curframe = inspect.currentframe()
     calframe = inspect.getouterframes(curframe, stacklev)
-- 
2.43.0


From 0d786acb6f5450ac5810209a49c2f39b8d56b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:19 +0000
Subject: [PATCH 53/87] fix: a line conductance gTL given without sigma or tand
 was replaced by zero

---
 src/pyRFtk/resolveTLparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index a972b51..3422abd 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -303,7 +303,7 @@ class TLresolver():
                                      'ddw': False, 'ddx': False}
                 self.order.append('rTL')
 
-            if not any(avail('sigma', 'tand', 'Am', 'AmdB')):
+            if not any(avail('gTL', 'sigma', 'tand', 'Am', 'AmdB')):
                 # have no attenuation and nothing to compute medium losses
                 # if any losses they must come from the conductors -> gTL = 0
                 setattr(self, 'gTL', lambda w, x: 0.)
@@ -314,7 +314,7 @@ class TLresolver():
         else:
             if not any(avail('Ac', 'AcdB', 'Rs','RsI','RsO',
                              'rTL','rTLO','rTLI', 'rho','rhoI','rhoO',
-                             'sigma', 'tand', 'Am', 'AmdB')):
+                             'gTL', 'sigma', 'tand', 'Am', 'AmdB')):
                 # we have an attenuation but nothing to compute either conductor
                 # or medium losses -> we assume there are no medium losses
                 setattr(self, 'gTL', lambda w, x: 0.)
-- 
2.43.0


From 0710db3af20a555620e7863b00a27805cbce0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 54/87] fix: a line without propagation (f=0) gave NaN

---
 src/pyRFtk/rfTRL.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index e8a3f72..3fdc2f9 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -469,16 +469,30 @@ class rfTRL():
                 # all TL parametersare constant with respect to x
                 # so one does not have to solve the differential eqn
                 
-                gm = (self.rjwL(w,0) * self.gjwC(w,0)) ** 0.5
-                Zc = self.rjwL(w,0) / gm
+                rjwL, gjwC = self.rjwL(w,0), self.gjwC(w,0)
                 
-                egmx = np.exp(gm * xs)
-                egmx1 = 1/egmx
+                if rjwL == 0 or gjwC == 0:
+                    
+                    # no propagation (e.g. at f=0): the line is a series 
+                    # impedance, a shunt admittance or a through connection
+                    
+                    U10 = np.ones(xs.shape, dtype=complex)
+                    I10 = gjwC * xs
+                    U01 = rjwL * xs
+                    I01 = U10
+                
+                else:
+                    
+                    gm = (rjwL * gjwC) ** 0.5
+                    Zc = rjwL / gm
+                
+                    egmx = np.exp(gm * xs)
+                    egmx1 = 1/egmx
                 
-                U10 = 0.5 * (egmx + egmx1)
-                I10 = 0.5 * (egmx - egmx1) / Zc
-                U01 = Zc **2 * I10
-                I01 = U10
+                    U10 = 0.5 * (egmx + egmx1)
+                    I10 = 0.5 * (egmx - egmx1) / Zc
+                    U01 = Zc **2 * I10
+                    I01 = U10
                 
             else:
                 
-- 
2.43.0


From 620cee381d8458d462e9757b47aa3e898cdb7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 55/87] fix: a line parameter given as a function without
 arguments failed

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 3422abd..ac63b6e 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -453,7 +453,7 @@ class TLresolver():
                     return  (lambda w, x: p(x)), ddw, ddx
                 else:
                     # constant function
-                    return p(), ddw, ddx
+                    return (lambda w, x: p()), ddw, ddx
                   
         # we (should) have a scalar numerical or a 1/2-D array like
         p = np.array(p)
-- 
2.43.0


From 2679d7889405c903771effdcc5753518363e446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 56/87] fix: a tapered line of length 0 gave NaN

---
 src/pyRFtk/rfTRL.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 3fdc2f9..23266d9 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -438,7 +438,8 @@ class rfTRL():
                         xs.append(xs[-1] + wavlen(w,xs[-1])/self.dx)
                     
                     # may have overshot the end point so we rescale everything
-                    xs = np.array(xs) * self.L/xs[-1]
+                    # (unless the section has no length at all)
+                    xs = np.array(xs) * (self.L/xs[-1] if xs[-1] else 1.)
                     
             else: # step explicitly given
                 if self.dx < 0:
-- 
2.43.0


From 6ec2c8d0e8d0254bd1ee310f87e832a964e2a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 57/87] fix: a tapered line with few nodes exceeded the steps
 of odeint and was wrong

---
 src/pyRFtk/rfTRL.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 23266d9..935e82e 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -497,11 +497,15 @@ class rfTRL():
                 
             else:
                 
-                sol10 = odeint(eqnVI, [1.,0.,0.,0.], xs, **self.odeparams)
+                # odeint's default of at most 500 steps between two nodes is 
+                # too few for sparse nodes (the solution is then wrong)
+                odeparams = {'mxstep': 1000000, **self.odeparams}
+                
+                sol10 = odeint(eqnVI, [1.,0.,0.,0.], xs, **odeparams)
                 U10 = sol10[:,0]+1j*sol10[:,1]
                 I10 = sol10[:,2]+1j*sol10[:,3]
                 
-                sol01 = odeint(eqnVI, [0.,0.,1.,0.], xs, **self.odeparams)
+                sol01 = odeint(eqnVI, [0.,0.,1.,0.], xs, **odeparams)
                 U01 = sol01[:,0]+1j*sol01[:,1]
                 I01 = sol01[:,2]+1j*sol01[:,3]
             
-- 
2.43.0


From 8358cd4e08f76773b83383e9879dbf3c6085ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 58/87] fix: the attenuation of a very lossy line was NaN

---
 src/pyRFtk/resolveTLparams.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index ac63b6e..201ce01 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -137,13 +137,9 @@ class TLresolver():
         
         def _A__CTL_gTL_LTL_rTL_(w,x=0):
             # could be _A__gamma_ : np.real(self.gamma(w,x))
-            wL = w * self.LTL(w,x)
-            wC = w * self.CTL(w,x)
-            gwC = self.gTL(w,x) / wC 
-            rwL = self.rTL(w,x) / wL
-            rwLgwC1 = (1 - rwL * gwC)
-            a2 = rwLgwC1 * (np.sqrt(1 +((rwL + gwC)/rwLgwC1)**2) - 1) / 2
-            return np.sqrt(a2 * wL * wC)
+            rjwL = self.rTL(w,x) + 1j * w * self.LTL(w,x)
+            gjwC = self.gTL(w,x) + 1j * w * self.CTL(w,x)
+            return np.real(np.sqrt(rjwL * gjwC))
         
         def _gamma__gjwC_rjwL_(w,x=0):
             return (self.gjwC(w,x)*self.rjwL(w,x))**0.5
-- 
2.43.0


From 24af46f4043b3e7f3680397aa7e6ad4749e793b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:16 +0000
Subject: [PATCH 59/87] fix: WriteTSF failed without a frequency unit in the
 format

---
 src/pyRFtk/WriteTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index a2aee3e..b4ba0e8 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -46,7 +46,7 @@ def WriteTSF(object, path2tsf=None,
     s += '\n# %s \n\n' % tsf_format
     
     fscale = {'HZ': 1e0, 'KHZ':1e3,'MHZ':1e6, 'GHZ':1e9, 'THZ':1e12}[
-        re.findall('^.*?([KMG]?HZ).*$',tsf_format.upper())[0]]
+        (re.findall('^.*?([KMG]?HZ).*$',tsf_format.upper()) + ['GHZ'])[0]]
 
     try:
         zref = float(
-- 
2.43.0


From 717bac75e207d808890961288333f9d7b4979428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:16 +0000
Subject: [PATCH 60/87] fix: touchstone format with or without # was written
 wrong

---
 src/pyRFtk/WriteTSF.py | 1 +
 src/pyRFtk/rfBase.py   | 5 ++---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index b4ba0e8..221175c 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -43,6 +43,7 @@ def WriteTSF(object, path2tsf=None,
         for line in scomments :
             s += '! %s\n' % line
         
+    tsf_format = tsf_format.lstrip('# ') # the # is optional
     s += '\n# %s \n\n' % tsf_format
     
     fscale = {'HZ': 1e0, 'KHZ':1e3,'MHZ':1e6, 'GHZ':1e9, 'THZ':1e12}[
diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index e1125e2..bb7b38c 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -332,9 +332,8 @@ class rfBase():
         }
         elstr = elstrs[elmfmt]
         
-        fmts = tfmt.upper().split()
-        if fmts[0] == '#':
-            fmts = fmts[1:]
+        tfmt = '# ' + tfmt.lstrip('# ') # the # is optional
+        fmts = tfmt.upper().split()[1:]
             
         last = ''
         for k, tk in enumerate(fmts):
-- 
2.43.0


From 0f2601ee706ce76a6d63eb61d9676a037a702650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:16 +0000
Subject: [PATCH 61/87] fix: rfObject missed tabulated frequencies given in
 another unit

---
 src/pyRFtk/rfObject.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index e46c29a..9abbb79 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -543,6 +543,9 @@ class rfObject():
         
         def get1S(fk):
             k = np.where(self.fs == fk)[0]
+            if not k.size:
+                # the conversion between units may have rounded
+                k = np.where(np.isclose(self.fs, fk, rtol=1e-12, atol=0.))[0]
             if k.size:
                 return self.Ss[k[0]]
             else:
-- 
2.43.0


From 7bb6faca699f68d26fa16f29e0c50fef5df5b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 62/87] fix: rfArcObj returned a scalar instead of a 1x1
 S-matrix

---
 src/pyRFtk/rfArcObj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index 6b48b3c..2d9656e 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -84,5 +84,5 @@ class rfArcObj(rfBase):
         jwL = 2j * np.pi * f  * self.Larc
         Ss = (1. + 0j if np.isinf(self.Larc) else # open (the default Larc)
               (jwL - self.Zbase) / (jwL + self.Zbase))
-        self.f, self.S = f, Ss
-        return Ss
+        self.f, self.S = f, np.array([[Ss]])
+        return self.S
-- 
2.43.0


From a8ec65beb67d7f6e3b84d92232313fb61fdfeeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:56 +0000
Subject: [PATCH 63/87] fix: rfArcObj had no port unless its name was given

---
 src/pyRFtk/rfArcObj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index 2d9656e..bcf06a9 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -50,7 +50,9 @@ class rfArcObj(rfBase):
             
         _debug_ and logident(f'{kwargs}')
         
-        super().__init__(**kwargs)
+        # it is a 1-port
+        super().__init__(**(kwargs if 'ports' in kwargs or 'Ss' in kwargs else 
+                            dict(kwargs, ports=['1'])))
         
         _debug_ and logident(f'{kwargs}')
         
-- 
2.43.0


From a3b13ab4cbe4f2302f090d86941c98f5c540012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:56 +0000
Subject: [PATCH 64/87] fix: rfObject tabulated in another unit than Hz was
 misread in a circuit

---
 src/pyRFtk/rfCircuit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index d9e36d8..57cf11e 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1354,9 +1354,12 @@ class rfCircuit(rfBase):
                             except AttributeError:
                                 pass
                             # recursively get the lower level S-matrices
+                            # (the circuit's frequencies are in Hz)
+                            kws = ({'funit': 'Hz'} 
+                                   if hasattr(blk['object'], 'funit') else {})
                             S = blk['object'].getS(f, Zbase=self.Zbase, 
                                                    params=blk['params'], 
-                                                   flags=flags)
+                                                   flags=flags, **kws)
                         else:
                             # this is when the object is a np.array
                             S = blk['object']
-- 
2.43.0


From 7662e4f0248211946c79328d28d550fd7da11fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:56 +0000
Subject: [PATCH 65/87] fix: rfGTL model with an arc failed

---
 src/pyRFtk/rfGTL.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 9e4e58d..6abb589 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -13,7 +13,8 @@ import warnings
 from copy import deepcopy
 
 
-from . import rfCircuit, rfTRL, rfRLC, rfObject, rfArcObj
+from . import rfCircuit, rfTRL, rfRLC, rfObject
+from .rfArcObj import rfArcObj # the package has the module at this point
 from .whoami import whoami 
 from .config import logit, tLogger, ident, _newID, logident
 
-- 
2.43.0


From b81f165b0db7b1bb8963597923915fc6882e1cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 66/87] fix: rfGTL variable given by variables not yet resolved
 was computed from their text

---
 src/pyRFtk/rfGTL.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 6abb589..5b5540a 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -93,10 +93,13 @@ class rfGTL(rfCircuit):
         found = True # prime the while loop
         while found:
             found = {}
+            # expressions can only be evaluated with variables already resolved
+            known = {var: val for var, val in self.vars.items() 
+                     if not isinstance(val, str)}
             for var, val in self.vars.items():
                 if isinstance(val, str):
                     try:
-                        found[var] = eval(val, globals(), self.vars)
+                        found[var] = eval(val, globals(), known)
                     except (NameError, SyntaxError, TypeError):
                         pass # probably could not resolve yet
             if found:
-- 
2.43.0


From bccfec390609674efb68bc1a0926f941b1a5dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 67/87] fix: rfGTL block given a position and a terminated
 first port failed

---
 src/pyRFtk/rfGTL.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 5b5540a..8e8ec77 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -180,7 +180,10 @@ class rfGTL(rfCircuit):
             
             if 'xpos' in tkwargs:
                 xpos = tkwargs.pop('xpos')
-                positions[f'{blkPortnames[0]}'] = xpos
+                if blkPortnames[0] in portlist:
+                    positions[f'{blkPortnames[0]}'] = xpos
+                elif blkPortnames[-1] in portlist: # the 1st port is terminated
+                    positions[f'{blkPortnames[-1]}'] = xpos + tkwargs.get('L', 0.)
             else:
                 xpos = -10
                 
-- 
2.43.0


From 67bae20dbe004dc9f600976894110e7222d64b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:45 +0000
Subject: [PATCH 68/87] fix: WriteTSF wrote wrong frequencies for an rfObject
 tabulated in another unit than Hz

---
 src/pyRFtk/WriteTSF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 221175c..b98e80c 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -102,7 +102,9 @@ def WriteTSF(object, path2tsf=None,
     leadspaces = ' '*(1 + int(num_format[0].split('.')[0]))
     
     for k,fk in enumerate(fs):
-        s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
+        # the object's frequencies may be in another unit than Hz
+        fkHz = fk * getattr(object, 'fscale', 1.)
+        s += (f'%{num_format[0]}' % (fkHz / fscale)) + ' '
         d = object.getS(fk, Zbase=zref)
         if nports == 2: # touchstone convention for 2-ports
             d = np.transpose(d)
-- 
2.43.0


From 3cd6db937a91198e512032296a00410c06e8e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:45 +0000
Subject: [PATCH 69/87] fix: rfTRL with touchstone data interpolated phases
 that were not unwrapped over frequency

---
 src/pyRFtk/rfTRL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 935e82e..87baf87 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -222,8 +222,8 @@ class rfTRL():
             Ss = self.sNpdata['Ss']
             fmt = self.sNpdata['datafmt'].upper()
             
-            d = {'MA': (lambda z: [np.abs(z), np.unwrap(np.angle(z))]),
-                 'DB': (lambda z: [20*np.log10(z).real, np.unwrap(np.angle(z))]),
+            d = {'MA': (lambda z: [np.abs(z), np.unwrap(np.angle(z),axis=0)]),
+                 'DB': (lambda z: [20*np.log10(z).real, np.unwrap(np.angle(z),axis=0)]),
                  'RI': (lambda z: [z.real, z.imag])
                 }[fmt](Ss[:])
                         
-- 
2.43.0


From 21016540dd49f7c3f4c3f8f24807db0496e7f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:45 +0000
Subject: [PATCH 70/87] fix: Solution replaced the values at a block's port by
 those of an inner node of the same name

---
 src/pyRFtk/rfCircuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 57cf11e..ec2c24e 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1674,9 +1674,10 @@ class rfCircuit(rfBase):
                     
                     tSolr = obj.Solution(f, Ek, Zbase, snodesleft, flags=flags)
                     
-                    # collect and add the result to tSol
+                    # collect and add the result to tSol (a node inside the block 
+                    # may have the name which a port of the block got here)
                     for tnode, tval in tSolr.items():
-                        self.tSol[f'{blkID}.{tnode}'] = tval
+                        self.tSol.setdefault(f'{blkID}.{tnode}', tval)
                         
         _debug_ and tLogger.debug(ident('< [cicuit.Solution]',-1))
         return self.tSol
-- 
2.43.0


From b1fa84d5dfd28bd6f9681cadbd99cf05fc5d8777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:45 +0000
Subject: [PATCH 71/87] fix: maxV of a circuit misread an rfObject tabulated in
 another unit than Hz

---
 src/pyRFtk/rfCircuit.py | 5 ++++-
 src/pyRFtk/rfObject.py  | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index ec2c24e..f17ef82 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1867,9 +1867,12 @@ class rfCircuit(rfBase):
                 if hasattr(obj, 'maxV'):
                     try:
                         _debug_ and logident(f'{blkID}: xpos = {blk["xpos"]}')
+                        # (the circuit's frequencies are in Hz)
+                        kws = {'funit': 'Hz'} if hasattr(obj, 'funit') else {}
                         t1, n1, VSW = obj.maxV(f, Ek, self.Zbase, blkID, 
                                                flags=flags,
-                                               xpos = relpos + blk['xpos'])
+                                               xpos = relpos + blk['xpos'],
+                                               **kws)
                         
                         if len(VSW) == 1 and blkID in VSW:
                             _debug_ and tLogger.debug(ident(
diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 9abbb79..1d566ff 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -642,7 +642,8 @@ class rfObject():
         
         Zbase = self.Zbase if Zbase == None else Zbase
         Ea = [E[p] for p in self.ports]
-        Eb = self.getS(f, Zbase=Zbase) @ Ea   # implicitly updates and solves the circuit
+        kws = {'funit': kwargs['funit']} if 'funit' in kwargs else {}
+        Eb = self.getS(f, Zbase=Zbase, **kws) @ Ea   # implicitly updates and solves the circuit
         Vi = np.abs(Ea + Eb)
         maxVi = np.max(Vi)
         k = np.where(Vi == maxVi)[0][0]
-- 
2.43.0


From f5375ce990b2f58cdeeed4431a591a27408ebca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:09 +0000
Subject: [PATCH 72/87] fix: replacing a block by its path dropped the
 enclosing block's parameters and ignored its own

---
 src/pyRFtk/rfCircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index f17ef82..0896683 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -631,8 +631,6 @@ class rfCircuit(rfBase):
             
             subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)
             self.blocks[name]['object'] = subblockobj
-            if '.' not in subblock:
-                self.blocks[name]['params'] = params
                 
             _debug_ and logident(
                 f'< [circuit.addblock] (replaced at a deeper level)', -1
@@ -648,6 +646,8 @@ class rfCircuit(rfBase):
             #TODO: maybe some other checks are in order / necessary
             
             self.blocks[name]['object'] = RFobj
+            if params:
+                self.blocks[name]['params'] = params
             
             _debug_ and tLogger.debug(ident(
                 f'< [circuit.addblock] (replaced at this level)', -1
-- 
2.43.0


From e0cb9f6cfb119ce52be3b8cf70681d7bb9a0e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:09 +0000
Subject: [PATCH 73/87] fix: replacing a block that is not there, inside a
 block, was accepted

---
 src/pyRFtk/rfCircuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 0896683..b0b28dc 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -630,6 +630,11 @@ class rfCircuit(rfBase):
             _debug_ and logident(f'adding {subblock} to "{self.Id}".blocks[{name}]')
             
             subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)
+            if len(subblockobj) != len(self.blocks[name]['ports']):
+                raise ValueError(
+                    f'{whoami(__package__)}: [update subblock {name+"."+subblock}]:'  
+                    f' {subblock} is not a block of {name}.')
+                
             self.blocks[name]['object'] = subblockobj
                 
             _debug_ and logident(
-- 
2.43.0


From 9b5f379c1c9f9df474120d5b21773f7ccead33dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:09 +0000
Subject: [PATCH 74/87] fix: port names given when a block is replaced were
 ignored, also those of missing ports

---
 src/pyRFtk/rfCircuit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index b0b28dc..0d93d7b 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -648,6 +648,12 @@ class rfCircuit(rfBase):
                     f'{whoami(__package__)}: [update {name}] number of ports mismatch: ' 
                     f'existing {len(self.blocks[name]["object"])}, new {len(RFobj)}')
             
+            # the ports keep their names
+            if ports and self._substports(name, RFobj, ports)[1] != self.blocks[name]['ports']:
+                raise ValueError(
+                    f'{whoami(__package__)}: [update {name}] port names mismatch: '
+                    f'existing {self.blocks[name]["ports"]}, new {ports}')
+            
             #TODO: maybe some other checks are in order / necessary
             
             self.blocks[name]['object'] = RFobj
-- 
2.43.0


From f09be0eac45ba4c7f464c1df6a6b405f1feb24ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:09 +0000
Subject: [PATCH 75/87] fix: a junction that was rejected had already consumed
 ports and created new ones

---
 src/pyRFtk/rfCircuit.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 0d93d7b..3c7fa1a 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -863,6 +863,17 @@ class rfCircuit(rfBase):
         oldports = [p for p in ports if ('->'+p) in self.waves]
         _debug_ and tLogger.debug(ident(f'old ports: {", ".join(oldports)}', 0))
         
+        # a junction that cannot be made leaves the circuit as it is
+        if newports and not oldports:
+            raise ValueError(
+                f'{whoami(__package__)}: a new port needs a port to be joined to'
+            )
+        for k, p in enumerate(oldports):
+            if p not in self.ports or p in oldports[:k]:
+                raise ValueError(
+                    f'{whoami(__package__)}: port {p} already in use'
+                )
+            
         for p in newports:
             self.waves.append('->'+p)
             self.waves.append('<-'+p) 
-- 
2.43.0


From d9994eb887de139436541519220c446bd54fc86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:09 +0000
Subject: [PATCH 76/87] fix: addblock accepted the same name for several ports
 of a block

---
 src/pyRFtk/rfCircuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 3c7fa1a..d80dc55 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -707,6 +707,10 @@ class rfCircuit(rfBase):
                 f'{whoami(__package__)}["{name}"]: RFobj len(ports)={len(oports)} '  
                 f'and len(RFobj)={N} mismatch')
         
+        if len(set(oports)) != N:
+            raise ValueError(
+                f'{whoami(__package__)}["{name}"]: duplicate port names {oports}')
+        
         # check the position parameter xpos
         
         if 'xpos' in kwargs:
-- 
2.43.0


From c17439ccf6dc23c57ad4e68b9193c621cc9e1587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:04 +0000
Subject: [PATCH 77/87] fix: a deembedding that was rejected had already
 changed the circuit, and a used port name was accepted for a new port

---
 src/pyRFtk/rfCircuit.py | 50 ++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index d80dc55..f3e69bb 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -474,6 +474,36 @@ class rfCircuit(rfBase):
                 )
             
         
+        # what cannot be deembedded leaves the circuit as it is
+        
+        free, known = self.ports[:], self.waves[:]
+        
+        for dp, ip in IntPorts:
+            
+            if f'->{ip}' in known:
+                raise ValueError(
+                    f'{whoami(__package__)}: (internal) port {ip} already exists '
+                )
+            
+            if dp not in free:
+                raise ValueError(
+                    f'{whoami(__package__)}: (external) port {dp} does not exist'
+                )
+                
+            free.remove(dp)
+            free.append(ip)
+            known.append(f'->{ip}')
+            
+        for pair in ExtPorts:
+            for p in pair:
+                
+                if p not in free:
+                    raise ValueError(
+                        f'{whoami(__package__)}: (external) port {p} does not exist'
+                    )
+                    
+                free.remove(p)
+        
         # add the columns for the internal ports
         
         self._reopen_()
@@ -487,16 +517,6 @@ class rfCircuit(rfBase):
           
         for dp, ip in IntPorts:
             
-            if ip in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (internal) port {ip} already exists '
-                )
-            
-            if dp not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {dp} does not exist'
-                )
-                
             # create the new internal port
             self.waves += [f'->{ip}', f'<-{ip}']
             self.ports.append(ip)
@@ -526,16 +546,6 @@ class rfCircuit(rfBase):
         
         for dp, ep in ExtPorts:
             
-            if dp not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {dp} does not exist'
-                )
-                
-            if ep not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {ep} does not exist'
-                )
-                
             # add two rows to self.M
             self.M = np.vstack((
                 self.M, 
-- 
2.43.0


From 972df0af18be1e24d7c7734eb55fe5a4ed892d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:04 +0000
Subject: [PATCH 78/87] fix: the position given when a block is replaced was
 ignored

---
 src/pyRFtk/rfCircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index f3e69bb..24c102f 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -669,6 +669,8 @@ class rfCircuit(rfBase):
             self.blocks[name]['object'] = RFobj
             if params:
                 self.blocks[name]['params'] = params
+            if 'relpos' in kwargs:
+                self.blocks[name]['xpos'] = kwargs['relpos']
             
             _debug_ and tLogger.debug(ident(
                 f'< [circuit.addblock] (replaced at this level)', -1
-- 
2.43.0


From dd0d96b7a107e2199d1b9baf90306f084aa07f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:35 +0000
Subject: [PATCH 79/87] fix: a rejected deembedding of a table had already
 changed its data

---
 src/pyRFtk/rfObject.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 1d566ff..9136323 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -721,6 +721,9 @@ class rfObject():
         self.interpOK = False      
         ports = dict(ports) # do not consume the caller's dict
         
+        # nothing is changed before all of the request is found to be valid
+        TRLs = {}
+        
         for kp, port in enumerate(self.ports):
             if port in ports:
                 v = ports.pop(port, (0., self.Zbase))
@@ -736,7 +739,17 @@ class rfObject():
                 else:
                     raise ValueError(
                         f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
+                
+                TRLs[kp] = TRL
     
+        if ports:
+            raise ValueError(
+                f'pyRFtk2.rfObject.deembed: port(s) {",".join([p for p in ports])}'
+                ' not found.')
+
+        for kp in range(len(self.ports)):
+            if kp in TRLs:
+                TRL = TRLs[kp]
                 
                 for kS, (f, Sobj) in enumerate(zip(self.fs, self.Ss)):
                     Strl = TRL.getS(f * self.fscale)
@@ -772,9 +785,4 @@ class rfObject():
                 
                     self.Ss[kS,:,:] = Sobj[:,:]
 
-        if ports:
-            raise ValueError(
-                f'pyRFtk2.rfObject.deembed: port(s) {",".join([p for p in ports])}'
-                ' not found.')
-
 
-- 
2.43.0


From 797a874118fa9cd8fb8addabdfdb0af306eb241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:02 +0000
Subject: [PATCH 80/87] fix: results handed out were the caches of circuits,
 tables and lines: changing them changed later results

---
 src/pyRFtk/rfBase.py    | 2 +-
 src/pyRFtk/rfCircuit.py | 3 +++
 src/pyRFtk/rfTRL.py     | 9 ++++++---
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index bb7b38c..8f39d25 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -257,7 +257,7 @@ class rfBase():
             )
         
         _debug_ and logident(f'self.Ss={self.Ss}')
-        S = self.Ss[k[0],:,:]
+        S = self.Ss[k[0],:,:].copy() # the caller may change what it is given
         _debug_ and logident(f'S[k]={S}')
         self.f, self.S = f, S
         
diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 24c102f..40ca7db 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1412,6 +1412,9 @@ class rfCircuit(rfBase):
 
             if Zbase and Zbase != self.Zbase:
                 M = ConvertGeneral(Zbase,M,self.Zbase)
+            else:
+                # the caller may change what it is given
+                M = M.copy()
                 
             return M
         # - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - 
diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 87baf87..1d405c8 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -525,7 +525,8 @@ class rfTRL():
             
         if I0 is None and V0 is None:
             
-            return self.solved[f]['S']
+            # (copies: the caller may change what it is given)
+            return self.solved[f]['S'].copy()
             
         else:
             if I0 is None:
@@ -537,7 +538,7 @@ class rfTRL():
             UIS = self.solved[f]
             VI1s = np.tensordot(UIS['VI'], np.array([V0,I0]), axes=([1],[0]))
             
-            return self.solved[f]['xs'], VI1s[0], VI1s[1]
+            return self.solved[f]['xs'].copy(), VI1s[0], VI1s[1]
             
     #===========================================================================
     #
@@ -603,7 +604,9 @@ class rfTRL():
             
             self.solved[f]['VISWs'][(Ahash, Zbase)] = (Vsw, Isw, E)
             
-        return self.solved[f]['xs'], self.solved[f]['VISWs'][(Ahash, Zbase)]
+        Vsw, Isw, E = self.solved[f]['VISWs'][(Ahash, Zbase)]
+        
+        return self.solved[f]['xs'].copy(), (Vsw.copy(), Isw.copy(), dict(E))
     
     #===========================================================================
     #
-- 
2.43.0


From c6b2cd0b6610fa501f7e3a82509cb78c74f4c875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:02 +0000
Subject: [PATCH 81/87] fix: scaleVSW and strVSW failed for reports of circuits
 with rfBase tables

---
 src/pyRFtk/plotVSWs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyRFtk/plotVSWs.py b/src/pyRFtk/plotVSWs.py
index 2f20e8a..60896dc 100644
--- a/src/pyRFtk/plotVSWs.py
+++ b/src/pyRFtk/plotVSWs.py
@@ -213,6 +213,9 @@ def scaleVSW(VSW, scale):
                     val[1][k] *= scale
             else:
                 VSW[Id][1] *= scale
+        elif isinstance(val, (int, float, complex)):
+            # the voltage of a port alone (rfBase.maxV)
+            VSW[Id] = val * scale
         else:
             raise ValueError('pyRFtk.CommonLib.plotVSWs.scaleVSW: internal error')
         
@@ -243,6 +246,9 @@ def strVSW(VSW, indent=0):
                 s += f'{" "*(indent+2)}{"node":5s}:{np.abs(val[0]):10.3f},{np.abs(val[1]):10.3f}\n'
             else:
                 s += f'! tuple error ...\n'
+        elif isinstance(val, (int, float, complex)):
+            # the voltage of a port alone (rfBase.maxV)
+            s += f'{" "*(indent+2)}{"node":5s}:{"":10s},{np.abs(val):10.3f}\n'
         else:
             s += f'! unexpected value type {type(val)} expected tuple\n'
     return s
-- 
2.43.0


From c3c4499c72b7732a26cd0bb40a1a3a5f313eb124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:02 +0000
Subject: [PATCH 82/87] fix: findObj failed for a path leading into a block
 without blocks

---
 src/pyRFtk/rfCircuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 40ca7db..9d3a2f6 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -281,10 +281,11 @@ class rfCircuit(rfBase):
                 blk, location = (location.split('.', 1) + [''])[:2] 
                 debug and logident(f'loc: {blk}, arc: {location}')
                 obj = obj.blocks[blk]['object']
-        except KeyError:
+        except (KeyError, AttributeError): # no such block or obj has no blocks
             if debug:
-                for s in obj.asstr(1).split('\n'):
-                    logident(s)
+                if hasattr(obj,'asstr'):
+                    for s in obj.asstr(1).split('\n'):
+                        logident(s)
                 if hasattr(obj,'blocks'):
                     for itm in obj.blocks:
                         logident(itm)
-- 
2.43.0


From 8ec3530dec800eed0a59a9bb719cd58666bb9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:02 +0000
Subject: [PATCH 83/87] fix: items of a table were views: changing them changed
 the table behind its interpolation

---
 src/pyRFtk/rfObject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 9136323..005db72 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -330,14 +330,14 @@ class rfObject():
     #
     def __iter__(self):
         for k in range(len(self.fs)):
-            yield self.fs[k], self.Ss[k,:,:]
+            yield self.fs[k], self.Ss[k,:,:].copy()
     
     #===========================================================================
     #
     #  _ _ g e t i t e m _ _
     #
     def __getitem__(self, k):
-        return self.fs[k], self.Ss[k,:,:]
+        return self.fs[k], self.Ss[k,:,:].copy() # changes go by __setitem__
     
     #===========================================================================
     #
-- 
2.43.0


From 242f4a3c011f2cf781c2c1b57ce51dad45045202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:02 +0000
Subject: [PATCH 84/87] fix: comparing tables always failed

---
 src/pyRFtk/rfObject.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 005db72..3c05aa5 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -380,9 +380,20 @@ class rfObject():
     #
     def __eq__(self, other, verbose=False):
         
+        if not isinstance(other, rfObject):
+            return NotImplemented
+        
+        # how the objects were made, their identity and the (cached) results of 
+        # the last evaluation do not count 
+        skip = ['Id', 'args', 'kwargs', 'got_args', 'f', 'S', 'interpOK', 
+                'interpA', 'interpM']
+        
         diflist = []
-        otherval = [val for val in other.__dict__]
+        otherval = [val for val in other.__dict__ if val not in skip]
         for val in self.__dict__:
+            if val in skip:
+                continue
+            
             if val not in otherval:
                 diflist.append((val,'<'))
             
@@ -390,12 +401,12 @@ class rfObject():
                 otherval.pop(otherval.index(val))
                 
                 if val in ['fs', 'Ss']:
-                    if not (len(self.fs) == len(other.fs)
+                    if not (np.shape(self.__dict__[val]) == np.shape(other.__dict__[val])
                         and np.allclose(self.__dict__[val], other.__dict__[val])):
                         diflist.append((val,'!='))
                         
-                else:
-                    if self.__dict__[val] != other.__dict__[val]:
+                elif np.size(self.__dict__[val]) or np.size(other.__dict__[val]):
+                    if not np.array_equal(self.__dict__[val], other.__dict__[val]):
                         diflist.append((val,'!='))
                         
         if otherval:
-- 
2.43.0


From 1a2d1d3ff3666f10fdec6ce4799a365a18b8ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:24 +0000
Subject: [PATCH 85/87] fix: touchstone files of one port with a port impedance
 and a reference resistance could not be read

---
 src/pyRFtk/ReadTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index fc2ce28..83b1dcd 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -364,7 +364,7 @@ def ReadTSF(src, **kwargs):
             else:
                 # numbers match ... but do the values
                 if nZbase == 1:
-                    errfs = np.max(np.abs([(Zbase - Zcs_k)/Zbase for Zcs_k in Zcs[:,0]]))
+                    errfs = np.max(np.abs([(Zbase - Zcs_k)/Zbase for Zcs_k in Zcs]))
                 else:
                     errfs = np.max(np.abs([
                         [(Zbase_l - Zcs_kl)/Zbase_l for Zbase_l, Zcs_kl in zip(Zbase, Zcs_k)]
-- 
2.43.0


From f2a5b51c1eccec7b86ad6d41698aa8f8c0765ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:24 +0000
Subject: [PATCH 86/87] fix: touchstone files with !SHAPE of one number, or
 !NUMBERING, could not be read

---
 src/pyRFtk/ReadTSF.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 83b1dcd..197cb45 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -173,7 +173,7 @@ def ReadTSF(src, **kwargs):
         if len(tlist) > 0:
             shape = tuple([int(x) for x in tlist[0].split()[:2]])
             if len(shape) == 1:
-                shape.append(0)
+                shape += (0,)
             
         tlist = re.findall('!PART (.+)',aline)
         if len(tlist) > 0:
@@ -184,8 +184,8 @@ def ReadTSF(src, **kwargs):
         tlist = re.findall('!NUMBERING (.+)',aline)
         if len(tlist) > 0:
             numbering = tuple([x.lower() for x in tlist[0].split()[:2]])
-            if len(shape) < 2:
-                shape = shape[0] # so numbering becomes type str rather than tuple
+            if len(numbering) < 2:
+                numbering = numbering[0] # so numbering becomes type str rather than tuple
             
         
     # detect the source of the touchstone
-- 
2.43.0


From f37bde1de4b5e8fd47fc87202303f766fa662289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:24 +0000
Subject: [PATCH 87/87] fix: a table whose ports are named when its first data
 are given had no port positions

---
 src/pyRFtk/rfObject.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 3c05aa5..b4a92cc 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -618,6 +618,9 @@ class rfObject():
                 self.ports = Portnames
                 
         # self.ports is defined 
+        if np.size(self.xpos) != len(self.ports):
+            self.xpos = [0.] * len(self.ports)
+            
         if len(self.ports) != S.shape[-1]:
             raise ValueError(
                 f'{whoami}: number of object\'s Portnames ({len(Portnames)}) '
-- 
2.43.0

