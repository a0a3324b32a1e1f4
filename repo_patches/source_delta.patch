From 2fe53a6c237617b758775a7c0d01d554800e8a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 01/85] fix: integer fields drop their most significant byte
 when read or written

---
 pythonbmp/inttools.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pythonbmp/inttools.py b/pythonbmp/inttools.py
index 8450315..2f1a74c 100644
--- a/pythonbmp/inttools.py
+++ b/pythonbmp/inttools.py
@@ -36,8 +36,7 @@ def writeint(offset: int, cnt: int,
     Returns:
         byref unsigned byte array
     """
-    j = cnt - 1
-    for i in range(j):
+    for i in range(cnt):
         arr[offset + i] = value & 0xff
         value = value >> 8
 
@@ -59,8 +58,7 @@ def readint(offset: int, cnt: int,
     Returns:
         unsigned int value
     """
-    j = cnt - 1
-    return sum(arr[offset + i] << (i << 3) for i in range(j))
+    return sum(arr[offset + i] << (i << 3) for i in range(cnt))
 
 
 def int2buf(cnt: int, value: int
@@ -88,5 +86,4 @@ def buf2int(buf: array) -> int:
     Returns:
         unsigned int value
     """
-    j = len(buf) - 1
-    return sum(buf[i] << (i << 3) for i in range(j))
+    return sum(buf[i] << (i << 3) for i in range(len(buf)))
-- 
2.43.0


From c3174de62a2e72fa3ab58f16dca12d892fcd0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 02/85] fix: det3D multiplies the wrong element in its last
 term

---
 pythonbmp/mathlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index a913326..79939a9 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -781,7 +781,7 @@ def det3D(
            a1[2] * a2[0] * a3[1] - \
            a1[0] * a2[2] * a3[1] - \
            a1[1] * a2[0] * a3[2] - \
-           a1[2] * a2[1] * a2[0]
+           a1[2] * a2[1] * a3[0]
 
 
 def cosaffin(u: list[Number],
-- 
2.43.0


From 1d61717daa58287b7b86aaea904c7af70e375ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 03/85] fix: circle boundary check compares y against the image
 width

---
 pythonbmp/paramchecks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/paramchecks.py b/pythonbmp/paramchecks.py
index 035e0a4..18d8adc 100644
--- a/pythonbmp/paramchecks.py
+++ b/pythonbmp/paramchecks.py
@@ -352,7 +352,7 @@ def entirecircleinboundary(func):
                            and type(r) == int:
             if entirecircleisinboundary(
                     x, y, -1, readint(bmpx, 4, bmp),
-                          -1, readint(bmpx, 4, bmp), r):
+                          -1, readint(bmpy, 4, bmp), r):
                 return(func(*args, **kwargs))
             else:
                 print(sysmsg['regionoutofbounds'])
-- 
2.43.0


From 95a5b1e617d091161c6c8e32c77e98e8225637e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 04/85] fix: horizontal lines wholly left or right of a 4-bit
 image still paint it or raise

---
 pythonbmp/BITMAPlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 658581c..dadc7eb 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2025,6 +2025,9 @@ def horiline(bmp: array, y: int,
         x1, x2 = swapif(x1, x2, x1 > x2)
         x1 = setmin(x1, 0)
         x2 = setmax(x2, mx - 1)
+        if x1 > x2:
+            print(sysmsg['lineoutofbnd'])
+            return
         dx = x2 - x1 + 1
         s = _BMoffsethd(bmp, x1, y)
         if bits == 24:
-- 
2.43.0


From a657523f8acf756a8736a8c2e1b682eb6f416324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 05/85] fix: neighbours in the first row and first column are
 left out

---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 5df504a..76e93b2 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -668,20 +668,20 @@ def itergetneighbors(v: list[int, int],
         ty = y - 1
         rx = x + 1
         by = y + 1
-        if ty > 0:
+        if ty > -1:
             yield [x, ty]
         if includecenter:
             yield(v)
         if by < my:
             yield [x, by]
-        if lx > 0:
-            if ty > 0:
+        if lx > -1:
+            if ty > -1:
                 yield [lx, ty]
             yield [lx, y]
             if by < my:
                 yield [lx, by]
         if rx < mx:
-            if ty > 0:
+            if ty > -1:
                 yield [rx, ty]
             yield [rx, y]
             if by < my:
-- 
2.43.0


From 21533ee5dc24270b8e9f48beb31fd76845f5ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 06/85] fix: listinBMPrecbnd and listinrecbnd report every list
 as inside the bounds

---
 pythonbmp/BITMAPlib.py    | 2 +-
 pythonbmp/primitives2D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index dadc7eb..7c94a17 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -499,7 +499,7 @@ def listinBMPrecbnd(bmp: array,
     for (x, y) in xylist:
         if isinBMPrectbnd(
             bmp, x, y) == False:
-            break
+            return False
     return True
 
 
diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 76e93b2..7b2796c 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -818,7 +818,7 @@ def listinrecbnd(
                        xmin, ymin,
                        xmax, ymax) == \
             False:
-            break
+            return False
     return True
 
 
-- 
2.43.0


From efb6352950862c70939af4d7b8f3b1f61a33ce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 07/85] fix: palette matching never considers black and misses
 exact matches given as tuples

---
 pythonbmp/colors.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index c2fd5aa..a237a35 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -290,15 +290,15 @@ def matchRGBtopal(RGB: list,
     """
     c = i = 0
     d = 442
+    RGB = list(RGB)
     if RGB in pal:
         c = pal.index(RGB)
     else:
         for p in pal:
-            if p != [0,0,0] and RGB != [0,0,0]:
-                newd = dist(RGB, p)
-                if newd < d:
-                    c = i
-                    d = newd
+            newd = dist(RGB, p)
+            if newd < d:
+                c = i
+                d = newd
             i += 1
     return c
 
-- 
2.43.0


From d7494f51e68bbabbddaa8fcab824ad0c245995d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 08/85] fix: pasting a circular buffer of another bit depth
 raises a TypeError

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7c94a17..ffc9c0a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2638,7 +2638,7 @@ def pastecirularbuf(bmp: array,
                     bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
                         circbuf[i][1]
             else:
-                raise(sysmsg['bitsnotequal'])
+                print(sysmsg['bitsnotequal'])
         else:
             print(sysmsg['regionoutofbounds'])
 
-- 
2.43.0


From 50eecea9a0018dd8c0413d9f7757339af2809dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 09/85] fix: monocircle raises on circles that are partly
 outside the image

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index ffc9c0a..01f6daa 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2506,7 +2506,7 @@ def _usenopar24btfn2circreg(bmp: array,
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
             if isinrange(y2, ymax, -1):
-                s2 = c(bmp, x1 ,y2),
+                s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
                 bmp[s2: e2] = func(bmp[s2: e2])
             if isinrange(y1, ymax, -1) and y2 != y1:
-- 
2.43.0


From 9f35243a1a8382d731192c3a6c3a8bdb349ca09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 10/85] fix: circular region adjustments skip the image's last
 column when the circle is cut off by it

---
 pythonbmp/BITMAPlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 01f6daa..008ee8a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2504,7 +2504,7 @@ def _usenopar24btfn2circreg(bmp: array,
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
-            x2 = setmax(x2, xmax - 1)
+            x2 = setmax(x2, xmax)
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -2562,7 +2562,7 @@ def _use24btfn2circreg(bmp: array,
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
-            x2 = setmax(x2, xmax - 1)
+            x2 = setmax(x2, xmax)
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -2713,7 +2713,7 @@ def _usenoparfn2circreg(bmp: array,
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
-            x2 = setmax(x2, xmax - 1)
+            x2 = setmax(x2, xmax)
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
-- 
2.43.0


From 86f16b838e5a1c3eec50c0c7c28f7f0e1460b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 11/85] fix: filled rectangles on 8-bit images take their
 colour number for an RGB value

---
 pythonbmp/BITMAPlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 008ee8a..888fea3 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3974,8 +3974,7 @@ def filledrect(bmp: array,
                               rgb[1],
                               rgb[0]] * dx)
         elif bits == 8:
-            buf = array('B', [matchRGBtopal(rgb,
-                              getallRGBpal(bmp))] * dx)
+            buf = array('B', [color & 0xff] * dx)
         offset = c(bmp, x1, y2)
         lim = c(bmp, x2, y1)
         bufsize = len(buf)
-- 
2.43.0


From 3a6c9c3baa6942e6762ce5499d91d64bc51609dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 12/85] fix: ellipse boundary check swaps the two axes so
 unclipped ellipses write out of bounds

---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 7b2796c..f598358 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -870,10 +870,10 @@ def entireellipseisinboundary(
         False -> Not all (x, y)
                  is in bounds
     """
-    return (isinrange(x - b, maxx, minx) and \
-            isinrange(x + b, maxx, minx)) and \
-           (isinrange(y - a, maxy, miny) and \
-            isinrange(y + a, maxy, miny))
+    return (isinrange(x - a, maxx, minx) and \
+            isinrange(x + a, maxx, minx)) and \
+           (isinrange(y - b, maxy, miny) and \
+            isinrange(y + b, maxy, miny))
 
 
 def ellipsevert(x: int, y: int,
-- 
2.43.0


From 6c7152e34f7a29e5c04d906819870423de10590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 13/85] fix: exact diagonals are drawn one row off and run past
 their end point, out of the image

---
 pythonbmp/primitives2D.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index f598358..82f68a5 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -175,7 +175,13 @@ def iterline(p1: list[int, int],
     dyabs = abs(dy)
     x = y = 0
     (px, py) = p1
-    if dxabs >= dyabs:
+    if dxabs == dyabs:
+        ilim = dxabs + 1
+        for _ in range(ilim):
+            yield([px, py])
+            px += sdx
+            py += sdy
+    elif dxabs > dyabs:
         ilim = dxabs + 1
         for _ in range(ilim):
             y += dyabs
-- 
2.43.0


From 2ab2f03d2962a181a808208900a63789de53aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 14/85] fix: mirroring the bytes of 1-bit images loses the
 lowest bit of every byte

---
 pythonbmp/bufferflip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/bufferflip.py b/pythonbmp/bufferflip.py
index bbc4ea9..f8589eb 100644
--- a/pythonbmp/bufferflip.py
+++ b/pythonbmp/bufferflip.py
@@ -30,7 +30,7 @@ def rotatebitsinbuf(
     Returns:
         unsigned byte array
     """
-    return array('B', [rotatebits(b)
+    return array('B', [rotatebits(b) | ((b & 1) << 7)
                        for b in buf])
 
 
-- 
2.43.0


From ca12100b813a54395877a2538fa35fbc18054b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 15/85] fix: iterimageRGB loses track of rows in 1-bit and
 4-bit images with unused bits at the end of rows

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 888fea3..0be224d 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7613,7 +7613,7 @@ def iterimageRGB(bmp: array,
                                 b[offset + 1],
                                 b[offset]))
             x += 1
-        if x == mx:
+        if x >= mx:
             x = 0
             y -= 1
             offset += padbytes
-- 
2.43.0


From 083697270b1fbb67ae1ece394a9f709367966965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 16/85] fix: erasing alternate lines never reaches the bottom
 line

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 0be224d..7e7bea3 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7832,7 +7832,7 @@ def erasealternatehorizontallines(
     bytepat &= 0xff
     blank = array('B', [bytepat] * bufsize)
     i = 1
-    while s2 > s1:
+    while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
             bmp[s2: s2 + bufsize] = blank
@@ -7976,7 +7976,7 @@ def erasealternatehorizontallinesinregion(
     s2 = f(bmp, x1, y1)
     blank = array('B', [bytepat] * bufsize)
     i = 1
-    while s2 > s1:
+    while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
             bmp[s2: s2 + bufsize] = blank
-- 
2.43.0


From 41b9df3eb936fbfd3cdf7578a196bbc4d0b77d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 17/85] fix: flips and mirrors of 1-bit and 4-bit regions move
 whole bytes instead of pixels

---
 pythonbmp/BITMAPlib.py | 87 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 87 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7e7bea3..8fd489c 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8094,6 +8094,75 @@ def mirrorbottom(bmp: array):
     verttrans(bmp, 'B')
 
 
+def _ispackedandunaligned(bmp: array,
+        x1: int, x2: int) -> bool:
+    """Tells if a horizontal span does not
+        start and end on a byte boundary
+        in a 1-bit or 4-bit image
+
+    Args:
+        bmp   : unsigned byte array
+                with bmp format
+        x1, x2: sorted int params for
+                a x coord line
+                in the bitmap
+
+    Returns:
+        True if other pixels share
+        a byte with the span
+    """
+    bits = bmp[bmpcolorbits]
+    return bits < 8 and \
+        (x1 * bits % 8 > 0 or (x2 + 1) * bits % 8 > 0)
+
+
+@entirerectinboundary
+def _transpixelbased(bmp: array,
+        x1: int, y1: int,
+        x2: int, y2: int, trans: str):
+    """Do image transforms in a
+        rectangular region
+        using pixel addressing
+
+    Args:
+        bmp            : unsigned
+                         byte array
+                         with bmp format
+        x1, y1, x2, y2 : ints that
+                         defines the
+                         rectangular
+                         region
+        trans          : two letter
+                         transform code
+                'HF' - flip horizontal
+                'HL' - mirror left half
+                'HR' - mirror right half
+                'VF' - flip vertical
+                'VT' - mirror top half
+                'VB' - mirror bottom half
+
+    Returns:
+        byref modified
+        unsigned byte array
+    """
+    x1, y1, x2, y2 = sortrecpoints(
+                        x1, y1, x2, y2)
+    ishori = trans[0] == 'H'
+    dx, dy = x2 - x1 + 1, y2 - y1 + 1
+    for i in range((dx if ishori else dy) >> 1):
+        for j in range(dy if ishori else dx):
+            if ishori:
+                p1, p2 = (x1 + i, y1 + j), (x2 - i, y1 + j)
+            else:
+                p1, p2 = (x1 + j, y1 + i), (x1 + j, y2 - i)
+            c1 = getxybitvec(bmp, p1)
+            c2 = getxybitvec(bmp, p2)
+            if trans[1] in 'FLT':
+                intplotvecxypoint(bmp, p2, c1)
+            if trans[1] in 'FRB':
+                intplotvecxypoint(bmp, p1, c2)
+
+
 @entirerectinboundary
 def verttransregion(bmp: array,
         x1: int, y1: int,
@@ -8136,6 +8205,9 @@ def verttransregion(bmp: array,
          'B': _B}[trans]
     x1, y1, x2, y2 = sortrecpoints(
                         x1, y1, x2, y2)
+    if _ispackedandunaligned(bmp, x1, x2):
+        _transpixelbased(bmp, x1, y1, x2, y2, 'V' + trans)
+        return
     bufsize = adjustxbufsize(bmp, x1, x2)
     r = _xchrcnt(bmp)
     c = _getBMoffhdfunc(bmp)
@@ -8233,6 +8305,8 @@ def fliphorzontalpixelbased(
         unsigned byte array
 
     """
+    x1, y1, x2, y2 = \
+        sortrecpoints(x1, y1, x2, y2)
     m = x1 + ((x2 - x1) >> 1)
     while x1 <= m:
         y = y1
@@ -8264,6 +8338,8 @@ def fliphverticalalpixelbased(
         byref modified
         unsigned byte array
     """
+    x1, y1, x2, y2 = \
+        sortrecpoints(x1, y1, x2, y2)
     m = y1 + ((y2 - y1) >> 1)
     while y1 <= m:
         x = x1
@@ -8310,6 +8386,7 @@ def horizontalbulkswap(bmp: array,
         x2 -= dx
 
 
+@entirerectinboundary
 def fliphorizontalregion(bmp: array,
         x1: int, y1: int,
         x2: int, y2: int):
@@ -8344,6 +8421,10 @@ def fliphorizontalregion(bmp: array,
         bmp[s1: e1: r], bmp[s2: e2: r] = \
         rotatebitsinbuf(bmp[s2: e2: r]), rotatebitsinbuf(bmp[s1: e1: r])
 
+    a, b = swapif(x1, x2, x1 > x2)
+    if _ispackedandunaligned(bmp, a, b):
+        _transpixelbased(bmp, x1, y1, x2, y2, 'HF')
+        return
     horizontalbulkswap(
         bmp,
         x1, y1, x2, y2,
@@ -8385,6 +8466,9 @@ def mirrorleftinregion(
         bmp[s2: e2: r] = \
             rotatebitsinbuf(bmp[s1: e1: r])
 
+    if bmp[bmpcolorbits] < 8:
+        _transpixelbased(bmp, x1, y1, x2, y2, 'HL')
+        return
     horizontalbulkswap(bmp,
         x1, y1, x2, y2,
         {24: _24,
@@ -8425,6 +8509,9 @@ def mirrorrightinregion(
         bmp[s1: e1: r] = \
             rotatebitsinbuf(bmp[s2: e2: r])
 
+    if bmp[bmpcolorbits] < 8:
+        _transpixelbased(bmp, x1, y1, x2, y2, 'HR')
+        return
     horizontalbulkswap(
         bmp, x1, y1, x2, y2,
         {24: _24,
-- 
2.43.0


From 391b40baff80d12f91e931efbd0d49380cc05369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 18/85] fix: copied rectangles are pasted one row too low and
 lose pixels on 1-bit and 4-bit images

---
 pythonbmp/BITMAPlib.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 8fd489c..bda95f6 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7709,8 +7709,14 @@ def copyrect(bmp: array,
     retval = array('B', [bmp[bmpcolorbits]])
     x1, y1, x2, y2 = \
        sortrecpoints(x1, y1, x2, y2)
-    retval += int2buf(2, x2 - x1 + 2)
-    retval += int2buf(2, y2 - y1 + 1)
+    retval += int2buf(2, x2 - x1)
+    retval += int2buf(2, y2 - y1)
+    if bmp[bmpcolorbits] < 8:
+        retval += int2buf(2, x2 - x1 + 1)
+        for y in range(y2, y1 - 1, -1):
+            for x in range(x1, x2 + 1):
+                retval.append(getxybit(bmp, x, y))
+        return retval
     retval += int2buf(2,
                 adjustxbufsize(bmp, x1, x2))
     for buf in itercopyrect(
@@ -7748,9 +7754,15 @@ def pasterect(bmp: array, buf: array,
             endoff = br + 7
             bufsize = len(buf)
             while startoff < bufsize:
-                BMPbitBLTput(bmp,
-                    offset,
-                    buf[startoff: endoff])
+                if bmp[bmpcolorbits] < 8:
+                    for x, c in enumerate(
+                            buf[startoff: endoff], x1):
+                        plotxybit(bmp, x, y2, c)
+                    y2 -= 1
+                else:
+                    BMPbitBLTput(bmp,
+                        offset,
+                        buf[startoff: endoff])
                 offset += r
                 startoff = endoff
                 endoff += br
-- 
2.43.0


From 422cdeb87ba947401e4e3e87f40d2f36d5fff75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 19/85] fix: erasing lines in 1-bit and 4-bit regions misses
 edge pixels or wipes their neighbours

---
 pythonbmp/BITMAPlib.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index bda95f6..c36d29b 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7987,11 +7987,19 @@ def erasealternatehorizontallinesinregion(
     s1 = f(bmp, x1, y2)
     s2 = f(bmp, x1, y1)
     blank = array('B', [bytepat] * bufsize)
+    bits = bmp[bmpcolorbits]
+    packed = _ispackedandunaligned(bmp, x1, x2)
     i = 1
     while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
-            bmp[s2: s2 + bufsize] = blank
+            if packed:
+                for x in range(x1, x2 + 1):
+                    plotxybit(bmp, x, y1 + i - 1,
+                        bytepat >> (8 - bits - x * bits % 8)
+                        & ((1 << bits) - 1))
+            else:
+                bmp[s2: s2 + bufsize] = blank
         s2 -= r
         i += 1
 
-- 
2.43.0


From ca514f78c139e57b1239a98a4c3cc8fe358f117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 20/85] fix: outlining regions shifts unsorted corners and
 leaks outside 1-bit and 4-bit regions

---
 pythonbmp/BITMAPlib.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index c36d29b..6209aa9 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12697,6 +12697,16 @@ def _cmpimglines(bmp: array,
         x1: int, y1: int,
         x2: int, y2: int,
         func: Callable):
+    x1, y1, x2, y2 = \
+        sortrecpoints(x1, y1, x2, y2)
+    if _ispackedandunaligned(bmp, x1, x2):
+        for y in range(y2, y1 - 1, -1):
+            ylast = setmin(y - 1, y1)
+            for x in range(x1, x2 + 1):
+                intplotvecxypoint(bmp, (x, y), func(
+                    [getxybit(bmp, x, ylast)],
+                    [getxybit(bmp, x, y)])[0])
+        return
     offset = _BMoffset(bmp, x1, y2)
     r = _xchrcnt(bmp)
     oldbuf = []
-- 
2.43.0


From 39f19f3d45860ddf6d506e8e00216cbd4c1a777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 21/85] fix: cropping an 8-bit image loses its palette

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 6209aa9..5eb5d6a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8860,6 +8860,8 @@ def crop(bmp: array, x1: int, y1: int,
             intplotvecxypoint(nbmp,
                 subvect(v[0], (x1, y1)), v[1])
     else:
+        if bits == 8:
+            copyRGBpal(bmp, nbmp)
         offset = 0
         r = _xchrcnt(nbmp)
         for buf in itercopyrect(
-- 
2.43.0


From 4c174ef6a6d8fd9c4d01cd3c780bbc93d7983384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 22/85] fix: packing bits into bytes rotates every byte by one
 bit

---
 pythonbmp/bufresize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/bufresize.py b/pythonbmp/bufresize.py
index 9866df0..571a27b 100644
--- a/pythonbmp/bufresize.py
+++ b/pythonbmp/bufresize.py
@@ -94,7 +94,7 @@ def packbitlisttobuf(blist: list[int]
     b = 0
     while i < j:
         m = i % 8
-        b += blist[i - 1] << (7 - m)
+        b += blist[i - 1] << (-m % 8)
         if m == 0 and i > 1:
             retval += [b]
             b = 0
-- 
2.43.0


From 8f0737ddf92ae02bc871688d4bcd0a9185836a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 23/85] fix: upgrading or enlarging 1-bit and 4-bit images
 drops the last pixels of a row

---
 pythonbmp/BITMAPlib.py | 4 ++--
 pythonbmp/bufresize.py | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 5eb5d6a..fa2041b 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7548,7 +7548,7 @@ def upgradeto24bitimage(bmp: array):
                         0, 0, mx, my):
             BMPbitBLTput(nbmp, offset,
                 convertbufto24bit(buf,
-                    bgrpal, bits))
+                    bgrpal, bits)[:(mx + 1) * 3])
             offset += r
     return nbmp
 
@@ -9002,7 +9002,7 @@ def resizeNtimesbigger(
     r = _xchrcnt(nbmp)
     for buf in itercopyrect(bmp, 0, 0,
                         mx, my):
-        nbuf = resizebufNtimesbigger(buf, n, bits)
+        nbuf = resizebufNtimesbigger(buf, n, bits)[:r]
         for _ in range(n):
             BMPbitBLTput(nbmp, offset, nbuf)
             offset += r
diff --git a/pythonbmp/bufresize.py b/pythonbmp/bufresize.py
index 571a27b..f947425 100644
--- a/pythonbmp/bufresize.py
+++ b/pythonbmp/bufresize.py
@@ -72,8 +72,12 @@ def adjustxbufsize(bmp: array,
     Returns:
         int adjusted buffer size
     """
+    bits = bmp[28]
+    if bits < 8:
+        # every byte that holds a pixel of the line
+        return (x2 * bits >> 3) - (x1 * bits >> 3) + 1
     return adjustbufsize(x2 - x1 + 1,
-                            bmp[28])
+                            bits)
 
 
 def packbitlisttobuf(blist: list[int]
-- 
2.43.0


From 1180d9ef6b756a1bbd76a6b2f648e331428806c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 24/85] fix: splitting a buffer of odd length loses its last
 group, so resizing drops the last pixel of odd-width images

---
 pythonbmp/buffersplit.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pythonbmp/buffersplit.py b/pythonbmp/buffersplit.py
index 874ca8e..acfe368 100644
--- a/pythonbmp/buffersplit.py
+++ b/pythonbmp/buffersplit.py
@@ -27,8 +27,6 @@ def altsplitbuf(buf: list[any]
         [[odd list], [even list]]
     """
     m = len(buf)
-    if m % 2 == 0:
-        m -= m & 1
     return [buf[:m - 1:2], buf[1: m: 2]]
 
 
@@ -48,8 +46,6 @@ def altsplitbuf3way(buf: list[any]
          [blue list]]
     """
     m = len(buf)
-    if m % 3 == 0:
-        m -= m & 1
     return [buf[:m - 2:3], buf[1: m - 1: 3], buf[2: m: 3]]
 
 
@@ -71,8 +67,6 @@ def altsplitbufnway(buf: list[any],
     retval = []
     m = len(buf)
     j = n - 1
-    if m % n == 0:
-        m -= m & 1
     for i in range(n):
         retval += [buf[i: m - j: n]]
         j -= 1
-- 
2.43.0


From 6c460f3e8fc811c59de6338b2173fc0d261c65b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 25/85] fix: flipXY turns 1-bit and 4-bit images the other way
 round than 8-bit and 24-bit ones

---
 pythonbmp/BITMAPlib.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index fa2041b..51db210 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2741,16 +2741,12 @@ def flipXYcircregion(bmp: array,
     bits = bmp[bmpcolorbits]
     c = _getBMoffhdfunc(bmp)
     if bits not in [24, 8]:
-        n = flipXY(bmp)
+        n = bmp[:]
         for (v0, v1) in itercirclepartlineedge(r):
-            x3, x4 = mirror(y, v0)
-            y3, y4 = mirror(x, v1)
-            x1, x2 = mirror(x, v0)
-            y1, y2 = mirror(y, v1)
-            bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
-              n[c(n, x3, y3): c(n, x4, y3)]
-            bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
-              n[c(n, x3, y4): c(n, x4, y4)]
+            for b in (-v1, v1):
+                for a in range(-v0, v0 + 1):
+                    plotxybit(bmp, x + a, y + b,
+                        getxybit(n, x + b, y - a))
     else:
         buf = []
         for (v0, v1) in itercirclepartlineedge(r):
@@ -8794,8 +8790,8 @@ def flipXY(bmp: array):
         for v in iterimagecolor(bmp,
                     sysmsg['flipXY'], '*',
                     sysmsg['done']):
-            plotxybit(nbmp, v[0][1],
-                            v[0][0],
+            plotxybit(nbmp, mx - 1 - v[0][1],
+                            my - 1 - v[0][0],
                             v[1])
     return nbmp
 
-- 
2.43.0


From 7ea4799ca1e8d85a6d1ce79a3e1e81e256f431c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 26/85] fix: circular region operations on 1-bit and 4-bit
 images move whole bytes instead of pixels

---
 pythonbmp/BITMAPlib.py | 192 +++++++++++++++++++----------------------
 1 file changed, 89 insertions(+), 103 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 51db210..2a30abc 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2575,6 +2575,55 @@ def _use24btfn2circreg(bmp: array,
                     func(bmp[s1: e1], funcparam)
 
 
+def _getrowpart(bmp: array,
+        x1: int, x2: int, y: int) -> array:
+    """Gets the color info of the pixels
+        from x1 up to but not including x2
+        in one row, one item for each pixel
+        in 1-bit and 4-bit bitmaps
+
+    Args:
+        bmp      : unsigned byte array
+                   with bmp format
+        x1, x2, y: int coordinates
+                   inside the bitmap
+
+    Returns:
+        unsigned byte array
+    """
+    if bmp[bmpcolorbits] < 8:
+        return array('B', [getxybit(bmp, x, y)
+                           for x in range(x1, x2)])
+    c = _getBMoffhdfunc(bmp)
+    return bmp[c(bmp, x1, y): c(bmp, x2, y)]
+
+
+def _setrowpart(bmp: array,
+        x1: int, x2: int, y: int, buf: array):
+    """Sets the color info of the pixels
+        from x1 up to but not including x2
+        in one row to the contents of a
+        buffer made like that of _getrowpart
+
+    Args:
+        bmp      : unsigned byte array
+                   with bmp format
+        x1, x2, y: int coordinates
+                   inside the bitmap
+        buf      : unsigned byte array
+
+    Returns:
+        byref modified unsigned byte array
+    """
+    if bmp[bmpcolorbits] < 8:
+        m = getmaxcolors(bmp) - 1
+        for x, v in zip(range(x1, x2), buf):
+            plotxybit(bmp, x, y, v & m)
+    else:
+        c = _getBMoffhdfunc(bmp)
+        bmp[c(bmp, x1, y): c(bmp, x2, y)] = buf
+
+
 @entirecircleinboundary
 def copycircregion2buf(bmp: array,
         x: int, y: int,
@@ -2594,12 +2643,11 @@ def copycircregion2buf(bmp: array,
         list with buffer of circular region
     """
     copybuf = [_getclrbits(bmp), r]
-    c = _getBMoffhdfunc(bmp)
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
         y1, y2 = mirror(y, v1)
-        copybuf += [[bmp[c(bmp, x1, y1): c(bmp, x2, y1)],
-                     bmp[c(bmp, x1, y2): c(bmp, x2, y2)]]]
+        copybuf += [[_getrowpart(bmp, x1, x2, y1),
+                     _getrowpart(bmp, x1, x2, y2)]]
     return copybuf
 
 
@@ -2624,7 +2672,6 @@ def pastecirularbuf(bmp: array,
 
     else:
         r = circbuf[1]
-        c = _getBMoffhdfunc(bmp)
         if entirecircleisinboundary(
                 x, y, -1,
                 getmaxx(bmp), -1,
@@ -2633,10 +2680,8 @@ def pastecirularbuf(bmp: array,
                 for i, (v0, v1) in enumerate(itercirclepartlineedge(r), start=2):
                     x1, x2 = mirror(x, v0)
                     y1, y2 = mirror(y, v1)
-                    bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
-                        circbuf[i][0]
-                    bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
-                        circbuf[i][1]
+                    _setrowpart(bmp, x1, x2, y1, circbuf[i][0])
+                    _setrowpart(bmp, x1, x2, y2, circbuf[i][1])
             else:
                 print(sysmsg['bitsnotequal'])
         else:
@@ -2692,20 +2737,17 @@ def _usenoparfn2circreg(bmp: array,
     Returns:
         byref modified unsigned byte array
     """
-    c = _getBMoffhdfunc(bmp)
     if entirecircleisinboundary(
             x, y, -1, getmaxx(bmp),
                   -1, getmaxy(bmp), r):
         for (v0, v1) in itercirclepartlineedge(r):
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
-            s1 = c(bmp, x1, y1)
-            e1 = c(bmp, x2, y1)
-            s2 = c(bmp, x1, y2)
-            e2 = c(bmp, x2, y2)
-            bmp[s1: e1] = func(bmp[s1: e1])
+            _setrowpart(bmp, x1, x2, y1,
+                func(_getrowpart(bmp, x1, x2, y1)))
             if y1 != y2:
-                bmp[s2: e2] = func(bmp[s2: e2])
+                _setrowpart(bmp, x1, x2, y2,
+                    func(_getrowpart(bmp, x1, x2, y2)))
     else:
         xmax = getmaxx(bmp)
         ymax = getmaxy(bmp)
@@ -2715,13 +2757,11 @@ def _usenoparfn2circreg(bmp: array,
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax)
             if isinrange(y2, ymax, -1):
-                s2 = c(bmp, x1, y2)
-                e2 = c(bmp, x2, y2)
-                bmp[s2: e2] = func(bmp[s2: e2])
+                _setrowpart(bmp, x1, x2, y2,
+                    func(_getrowpart(bmp, x1, x2, y2)))
             if isinrange(y1, ymax, -1) and y2 != y1:
-                s1 = c(bmp, x1, y1)
-                e1 = c(bmp, x2, y1)
-                bmp[s1: e1] = func(bmp[s1: e1])
+                _setrowpart(bmp, x1, x2, y1,
+                    func(_getrowpart(bmp, x1, x2, y1)))
 
 
 @entirecircleinboundary
@@ -2932,27 +2972,24 @@ def verttransformincircregion(
         byref modified unsigned byte array
     """
     def _T():
-        bmp[s2: e2] = bmp[s1: e1]
+        _setrowpart(bmp, x1, x2, y2, t)
 
     def _B():
-        bmp[s1: e1] = bmp[s2: e2]
+        _setrowpart(bmp, x1, x2, y1, b)
 
     def _F():
-        bmp[s1: e1], bmp[s2: e2] = \
-        bmp[s2: e2], bmp[s1: e1]
+        _T()
+        _B()
 
     f = {'T': _T,
          'B': _B,
          'F' : _F}[trans]
 
-    c=_getBMoffhdfunc(bmp)
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
         y1, y2 = mirror(y, v1)
-        s1 = c(bmp, x1, y1)
-        e1 = c(bmp, x2, y1)
-        s2 = c(bmp, x1, y2)
-        e2 = c(bmp, x2, y2)
+        t = _getrowpart(bmp, x1, x2, y1)
+        b = _getrowpart(bmp, x1, x2, y2)
         f()
 
 
@@ -3153,71 +3190,18 @@ def outlinecircregion(bmp: array,
     Returns:
         byref modified unsigned byte array
     """
-    bits = bmp[bmpcolorbits]
-    c = _getBMoffhdfunc(bmp)
-    if entirecircleisinboundary(
-            x, y,
-            -1, getmaxx(bmp),
-            -1, getmaxy(bmp), r):
-        for (v0, v1) in itercirclepartlineedge(r):
-            x1, x2 = mirror(x, v0)
-            y1, y2 = mirror(y, v1)
-            s1 = c(bmp, x1, y1)
-            e1 = c(bmp, x2, y1)
-            s2 = c(bmp, x1, y2)
-            e2 = c(bmp, x2, y2)
-            if bits == 24:
-                bmp[s1: e1] = \
-                array('B', xorvect(
-                      bmp[s1: e1],
-                      bmp[s1 + 3: e1 + 3]))
-                if y1 != y2:
-                    bmp[s2: e2] = \
-                    array('B', xorvect(
-                          bmp[s2: e2],
-                          bmp[s2 + 3: e2 + 3]))
-            else:
-                bmp[s1: e1] = \
-                array('B', xorvect(
-                      bmp[s1: e1],
-                      bmp[s1 + 1: e1 + 1]))
-                if y1 != y2:
-                    bmp[s2: e2] = \
+    xmax, ymax = getmaxxy(bmp)
+    for (v0, v1) in itercirclepartlineedge(r):
+        x1, x2 = mirror(x, v0)
+        y1, y2 = mirror(y, v1)
+        x1 = setmin(x1, 0)
+        x2 = setmax(x2, xmax - 1)
+        for y3 in (y1, y2) if y1 != y2 else (y1,):
+            if x1 < x2 and isinrange(y3, ymax, -1):
+                _setrowpart(bmp, x1, x2, y3,
                     array('B', xorvect(
-                          bmp[s2: e2],
-                          bmp[s2 + 1: e2 + 1]))
-    else:
-        (xmax, ymax) = getmaxxy(bmp)
-        for (v0, v1) in itercirclepartlineedge(r):
-            x1, x2 = mirror(x, v0)
-            y1, y2 = mirror(y, v1)
-            x1 = setmin(x1, 0)
-            x2 = setmax(x2, xmax - 1)
-            if isinrange(y2, ymax, -1):
-                s2 = c(bmp, x1, y2)
-                e2 = c(bmp, x2, y2)
-                if bits == 24:
-                    bmp[s2: e2] = \
-                    array('B',
-                     xorvect(bmp[s2: e2],
-                     bmp[s2 + 3: e2 + 3]))
-                else:
-                    bmp[s2: e2] = \
-                    array('B',
-                      xorvect(bmp[s2: e2],
-                      bmp[s2 + 1: e2 + 1]))
-            if isinrange(y1, ymax, -1) and y2 != y1:
-                s1 = c(bmp, x1, y1)
-                e1 = c(bmp, x2, y1)
-                if bits == 24:
-                    bmp[s1: e1] = \
-                        array('B',
-                          xorvect(bmp[s1: e1],
-                          bmp[s1 + 3: e1 + 3]))
-                else:
-                    bmp[s1: e1] = \
-                        array('B', xorvect(bmp[s1: e1],
-                                   bmp[s1 + 1: e1 + 1]))
+                        _getrowpart(bmp, x1, x2, y3),
+                        _getrowpart(bmp, x1 + 1, x2 + 1, y3))))
 
 
 def monocircle(bmp: array,
@@ -7901,23 +7885,25 @@ def erasealternatehorizontallinesincircregion(
     Returns:
         byref modified unsigned byte array
     """
-    c = _getBMoffhdfunc(bmp)
+    bits = bmp[bmpcolorbits]
     bytepat &= 0xff
     for v in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v[0])
         y1, y2 = mirror(y, v[1])
-        s1 = c(bmp, x1, y1)
-        e1 = c(bmp, x2, y1)
-        s2 = c(bmp, x1, y2)
-        e2 = c(bmp, x2, y2)
+        if bits < 8:
+            blank = array('B',
+                [bytepat >> (8 - bits - i * bits % 8)
+                 & ((1 << bits) - 1)
+                 for i in range(x1, x2)])
+        else:
+            blank = array('B',
+                [bytepat] * ((x2 - x1) * bits >> 3))
         if y1 % int_eraseeverynline == \
                 int_eraseNthline:
-            bmp[s1: e1] = \
-            array('B', [bytepat] * (e1 - s1))
+            _setrowpart(bmp, x1, x2, y1, blank)
         if y2 % int_eraseeverynline == \
                 int_eraseNthline:
-            bmp[s2: e2] = \
-            array('B', [bytepat] * (e2 - s2))
+            _setrowpart(bmp, x1, x2, y2, blank)
 
 
 def eraseeverynthhorizontallineinccircregion(
-- 
2.43.0


From 99287998b957449100081863bb864f68e5fb2631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 27/85] fix: brightness gradients raise ZeroDivisionError on
 regions one pixel wide or high

---
 pythonbmp/BITMAPlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 2a30abc..7228d36 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3126,7 +3126,7 @@ def vertbrightnessgrad2circregion(
     c = _getBMoffhdfunc(bmp)
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (2 * r)
+    dl = delta(lumrange) / setmin(2 * r, 1)
     b = y - r
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
@@ -3162,7 +3162,7 @@ def horibrightnessgrad2circregion(
     """
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (2 * r)
+    dl = delta(lumrange) / setmin(2 * r, 1)
     b = x - r
     for (v0, v1)  in itercirclepartvertlineedge(r):
         x1, x2 = mirror(x, v0)
@@ -12455,7 +12455,7 @@ def verticalbrightnessgradto24bitregion(
     offset = _24bmof(bmp, x1, y2)
     r = _xchrcnt(bmp)
     lum = lumrange[1]
-    dlum = (lumrange[0] - lum) / (y2 - y1)
+    dlum = (lumrange[0] - lum) / setmin(y2 - y1, 1)
     for buf in itercopyrect(bmp, x1, y1, x2, y2):
         BMPbitBLTput(bmp, offset,
              applybrightnessadjtoBGRbuf(buf, lum))
@@ -12492,7 +12492,7 @@ def horizontalbrightnessgradto24bitregion(
     xlim = x2 + 1
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (x2 - x1)
+    dl = delta(lumrange) / setmin(x2 - x1, 1)
     for x in range(x1, xlim):
         s = c(bmp, x, y2)
         e = c(bmp, x, y1)
-- 
2.43.0


From e1af60af1e41be0bbcb275797ce55e1d877e1030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 28/85] fix: circle and ellipse outlines raise on 8-bit images
 for colours the other shapes reduce to 8 bits

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7228d36..a4e899c 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3445,6 +3445,7 @@ def circle(bmp: array,
                     bmp[s3: s3 + 3] = \
                     bmp[s4: s4 + 3] = color
         elif bits == 8:
+            color &= 0xff
             if dobndcheck:
                 for (px, py) in itercircle(x, y, r):
                     if isinBMPrectbnd(bmp, px, py):
@@ -3805,6 +3806,7 @@ def ellipse(bmp: array,
                     s = c(bmp, px, py)
                     bmp[s: s + 3] = color
         elif bits == 8:
+            color &= 0xff
             for (px, py) in iterellipse(x, y, b, a):
                 if dobndcheck:
                     if isinBMPrectbnd(bmp, px, py):
-- 
2.43.0


From 925a3f61a04c5e9b7432270985810f1868333367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 29/85] fix: pixelating a circle copies header bytes into
 images that are no multiple of the block size

---
 pythonbmp/BITMAPlib.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index a4e899c..c5b9700 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12552,9 +12552,11 @@ def pixelizenxncircregion(bmp: array,
     c = _BMoffsethd
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
-        y1, y2 = mirror(y, v1)
-        bmp[c(bmp, x1, y1): c(bmp, x2, y1)], bmp[c(bmp, x1, y2): c(bmp,x2,y2)]= \
-        b[c(b, x1, y1): c(b, x2, y1)], b[c(b, x1, y2): c(b, x2, y2)]
+        x2 = setmax(x2, getmaxx(b))
+        for y3 in set(mirror(y, v1)):
+            if x1 < x2 and y3 < getmaxy(b):
+                bmp[c(bmp, x1, y3): c(bmp, x2, y3)] = \
+                b[c(b, x1, y3): c(b, x2, y3)]
 
 
 @func24bitonly
-- 
2.43.0


From 1235a8cf2fb9627317fd5139e979a98fb799771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:41 +0000
Subject: [PATCH 30/85] fix: ellipses overshoot or fall short of their axes and
 hang for zero axes

---
 pythonbmp/primitives2D.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 82f68a5..e7fbf7b 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -253,23 +253,28 @@ def iterellipsepart(b: int, a: int) -> list[int, int]:
     _4b_sqr = b_sqr << 2
     d= _2a_sqr * ((row - 1) * row) + \
         a_sqr + _2b_sqr * (1 - a_sqr)
-    while row * a_sqr >= col * b_sqr:
+    while row * a_sqr > col * b_sqr:
         yield [col, row]
         if d >= 0:
             row -= 1
             d -= _4a_sqr * row
         d += _2b_sqr * (3 + (col << 1))
         col += 1
-    d = _2b_sqr * ((col - 1) * col) + \
+    d = _2b_sqr * ((col + 1) * col) + \
         _2a_sqr * (row * (row - 2) + 1) + \
         (1 - _2a_sqr) * b_sqr
+    tip = a
     while row > -1:
         yield [col, row]
-        if d >= 0:
+        tip = col
+        if d <= 0:
             col += 1
-            d -= _4b_sqr * col
-        d += _2a_sqr * (3 + (row << 1))
+            d += _4b_sqr * col
         row -= 1
+        d += _2a_sqr * (1 - (row << 1))
+    while tip < a:
+        tip += 1
+        yield [tip, 0]
 
 
 def iterellipse(x: int, y: int,
-- 
2.43.0


From b416fd237d7df870e40082e72fe0dc6e01ab4c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:02 +0000
Subject: [PATCH 31/85] fix: filled parallelograms leave unpainted pixels where
 the side steps diagonally

---
 pythonbmp/primitives2D.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index e7fbf7b..82e65a7 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -210,8 +210,14 @@ def iterparallelogram(
     p = lineseg(p1, p3)
     q = lineseg(p2, addvect(p3,
                     subvect(p2, p1)))
+    u0 = v0 = None
     for u, v in zip(p, q):
+        if u0 is not None and \
+           u0[0] != u[0] and u0[1] != u[1]:
+            # a diagonal step leaves gaps
+            yield [[u[0], u0[1]], [v[0], v0[1]]]
         yield [u, v]
+        u0, v0 = u, v
 
 
 def lineseg(p1: list[int, int],
-- 
2.43.0


From 1181698c34f80b1bc5658b5370cb5653cb424ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 32/85] fix: upright sideways text cycles its colours per pixel
 instead of per glyph row

---
 pythonbmp/BITMAPlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index c5b9700..434075e 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -4861,9 +4861,9 @@ def plot8bitpatternsidewaywithfn(
                         fn(bmp, x, y, inc, cl)
                 mask >>= 1
                 y -= scale
-                colorind += 1
-                if colorcnt == colorind:
-                    colorind = 0
+            colorind += 1
+            if colorcnt == colorind:
+                colorind = 0
             x += scale
             y = oy
 
-- 
2.43.0


From c666bbef6c41ec3446b31368f60559792ed900ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 33/85] fix: upside down text drawn as dots keeps the letter
 order of upright text

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 434075e..84f00a2 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -6163,7 +6163,7 @@ def plotstringupsidedownasdots(
     plotstringfunc(bmp, x, y, str2plot,
         scale, pixspace,
         spacebetweenchar, color,
-        fontbuf, enumletters,
+        fontbuf, enumreverseletters,
         plot8bitpatternupsidedownasdots)
 
 
-- 
2.43.0


From d5bf9a1b4d2448b8723097ccdcdf6cb3c47972e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:55 +0000
Subject: [PATCH 34/85] fix: printing an image as text leaves out its bottom
 row

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 84f00a2..e109753 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12289,7 +12289,7 @@ def plotbmpastext(bmp: array):
     my = getmaxy(bmp) - 1
     r = _xchrcnt(bmp)
     offset = _hdsz(bmp)
-    for y in range(my, 0, -1):
+    for y in range(my, -1, -1):
         for x in range(r):
             i = offset + r * y + x
             if bits == 1:
-- 
2.43.0


From 98103f2a210a6656d8aa45a684950ff86be9c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 35/85] fix: italic sideways text at scale 1 leans the wrong
 way

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index e109753..110242c 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -4910,7 +4910,7 @@ def plotitalic8bitpatternsidewaywithfn(
             x += scale
             y = oy + i
             if x % 2 == 0 and scale == 1:
-                y -= 1
+                y += 1
     elif type(color) == list or type(color) == tuple:
         colorcnt = len(color)
         colorind = 0
@@ -4932,7 +4932,7 @@ def plotitalic8bitpatternsidewaywithfn(
             if colorind == colorcnt:
                 colorind = 0
             if x % 2 == 0 and scale == 1:
-                y -= 1
+                y += 1
 
 def plot8bitpatternsideway(
         bmp: array, x: int, y: int,
-- 
2.43.0


From cecd5448e9091eb0457551a9cff40ea63856ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 36/85] fix: discs and filled ellipses beyond the left or right
 border delete image bytes

---
 pythonbmp/BITMAPlib.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 110242c..4de2cee 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3364,6 +3364,8 @@ def filledcircle(bmp: array,
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
                 dx = x2 - x1 + 1
+                if dx < 1:
+                    continue
                 rgb = int2RGBlist(color)
                 colorbuf = array('B', [rgb[2],
                                        rgb[1],
@@ -3382,6 +3384,8 @@ def filledcircle(bmp: array,
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
                 dx = x2 - x1 + 1
+                if dx < 1:
+                    continue
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
                 if isinrange(y2, ymax, -1):
@@ -3735,6 +3739,8 @@ def filledellipse(bmp: array,
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
                 dx = x2 - x1 + 1
+                if dx < 1:
+                    continue
                 rgb = int2RGBlist(color)
                 colorbuf = \
                  array('B', [rgb[2],
@@ -3754,6 +3760,8 @@ def filledellipse(bmp: array,
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
                 dx = x2 - x1 + 1
+                if dx < 1:
+                    continue
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
                 if isinrange(y2, my, -1):
-- 
2.43.0


From 9796ab6f0dda6850330a3594c64b4f57044302b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:01 +0000
Subject: [PATCH 37/85] fix: circular region operations beyond the left or
 right border change other rows

---
 pythonbmp/BITMAPlib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4de2cee..c66ab9c 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2505,6 +2505,8 @@ def _usenopar24btfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax)
+            if x1 >= x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -2563,6 +2565,8 @@ def _use24btfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax)
+            if x1 >= x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -2756,6 +2760,8 @@ def _usenoparfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax)
+            if x1 >= x2:
+                continue
             if isinrange(y2, ymax, -1):
                 _setrowpart(bmp, x1, x2, y2,
                     func(_getrowpart(bmp, x1, x2, y2)))
-- 
2.43.0


From 939d9416b248add4b7efe4818eec6e4bc1f5ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:14 +0000
Subject: [PATCH 38/85] fix: X11 colour table gives some names the value of a
 neighbouring entry

---
 pythonbmp/X11colordict.py | 154 +++++++++++++++++++-------------------
 1 file changed, 77 insertions(+), 77 deletions(-)

diff --git a/pythonbmp/X11colordict.py b/pythonbmp/X11colordict.py
index c68dbfd..a2f0c64 100644
--- a/pythonbmp/X11colordict.py
+++ b/pythonbmp/X11colordict.py
@@ -3,27 +3,27 @@ def getX11colorname2HSLdict() -> dict:
 'aliceblue': (208, 100, 97),
 'antiquewhite': (208, 100, 97),
 'antiquewhite': (34, 78, 91),
-'antiquewhite1': (34, 78, 91),
-'antiquewhite2': (33, 100, 93),
-'antiquewhite3': (34, 50, 87),
-'antiquewhite4': (33, 22, 75),
-'aqua': (171, 85, 50),
+'antiquewhite1': (33, 100, 93),
+'antiquewhite2': (34, 50, 87),
+'antiquewhite3': (33, 22, 75),
+'antiquewhite4': (35, 8, 51),
+'aqua': (180, 100, 50),
 'aquamarine': (180, 100, 50),
 'aquamarine1': (160, 100, 75),
-'aquamarine2': (160, 100, 75),
-'aquamarine3': (160, 78, 70),
-'aquamarine4': (160, 51, 60),
-'azure': (160, 34, 41),
+'aquamarine2': (160, 78, 70),
+'aquamarine3': (160, 51, 60),
+'aquamarine4': (160, 34, 41),
+'azure': (180, 100, 97),
 'azure1': (180, 100, 97),
-'azure2': (180, 100, 97),
-'azure3': (180, 29, 91),
-'azure4': (180, 11, 78),
-'beige': (180, 3, 53),
-'bisque': (60, 56, 91),
+'azure2': (180, 29, 91),
+'azure3': (180, 11, 78),
+'azure4': (180, 3, 53),
+'beige': (60, 56, 91),
+'bisque': (33, 100, 88),
 'bisque1': (33, 100, 88),
-'bisque2': (33, 100, 88),
-'bisque3': (33, 62, 83),
-'bisque4': (32, 32, 71),
+'bisque2': (33, 62, 83),
+'bisque3': (32, 32, 71),
+'bisque4': (34, 13, 48),
 'black': (0, 0, 0),
 'blanchedalmond': (36, 100, 90),
 'blue': (240, 100, 50),
@@ -98,7 +98,7 @@ def getX11colorname2HSLdict() -> dict:
 'darkgoldenrod2': (43, 89, 49),
 'darkgoldenrod3': (43, 89, 43),
 'darkgoldenrod4': (43, 89, 29),
-'darkgray': (82, 39, 30),
+'darkgray': (0, 0, 66),
 'darkolivegreen1': (82, 100, 72),
 'darkolivegreen2': (82, 80, 67),
 'darkolivegreen3': (82, 53, 58),
@@ -111,12 +111,12 @@ def getX11colorname2HSLdict() -> dict:
 'darkorchid2': (280, 84, 58),
 'darkorchid3': (280, 61, 50),
 'darkorchid4': (280, 61, 34),
-'darkred': (120, 25, 65),
+'darkred': (0, 100, 27),
 'darkseagreen1': (120, 100, 88),
 'darkseagreen2': (120, 63, 82),
 'darkseagreen3': (120, 33, 71),
 'darkseagreen4': (120, 14, 48),
-'darkslateblue': (180, 25, 25),
+'darkslateblue': (248, 39, 39),
 'darkslategray1': (180, 100, 80),
 'darkslategray2': (180, 74, 74),
 'darkslategray3': (180, 46, 64),
@@ -428,7 +428,7 @@ def getX11colorname2HSLdict() -> dict:
 'lightblue2': (195, 64, 82),
 'lightblue3': (195, 34, 70),
 'lightblue4': (194, 14, 48),
-'lightcoral': (180, 100, 94),
+'lightcoral': (0, 79, 72),
 'lightcyan1': (180, 100, 94),
 'lightcyan2': (180, 46, 88),
 'lightcyan3': (180, 20, 75),
@@ -437,7 +437,7 @@ def getX11colorname2HSLdict() -> dict:
 'lightgoldenrod2': (50, 76, 72),
 'lightgoldenrod3': (50, 48, 62),
 'lightgoldenrod4': (50, 29, 42),
-'lightgoldenrodyellow': (351, 100, 86),
+'lightgoldenrodyellow': (60, 80, 90),
 'lightpink1': (352, 100, 84),
 'lightpink2': (351, 69, 78),
 'lightpink3': (352, 39, 68),
@@ -446,7 +446,7 @@ def getX11colorname2HSLdict() -> dict:
 'lightsalmon2': (17, 78, 69),
 'lightsalmon3': (17, 52, 59),
 'lightsalmon4': (17, 36, 40),
-'lightseagreen': (203, 92, 75),
+'lightseagreen': (177, 70, 41),
 'lightskyblue1': (202, 100, 85),
 'lightskyblue2': (202, 69, 79),
 'lightskyblue3': (202, 39, 68),
@@ -482,7 +482,7 @@ def getX11colorname2HSLdict() -> dict:
 'mediumspringgreen': (157, 100, 49),
 'mediumturquoise': (178, 60, 55),
 'mediumvioletred': (322, 81, 43),
-'mediumaquamarine': (288, 59, 58),
+'mediumaquamarine': (160, 51, 60),
 'mediumorchid1': (288, 100, 70),
 'mediumorchid2': (288, 81, 65),
 'mediumorchid3': (288, 55, 56),
@@ -491,7 +491,7 @@ def getX11colorname2HSLdict() -> dict:
 'mediumpurple2': (259, 77, 70),
 'mediumpurple3': (260, 50, 61),
 'mediumpurple4': (259, 32, 41),
-'mediumseagreen': (322, 81, 43),
+'mediumseagreen': (147, 50, 47),
 'midnightblue': (240, 64, 27),
 'mintcream': (150, 100, 98),
 'mistyrose': (6, 100, 94),
@@ -533,7 +533,7 @@ def getX11colorname2HSLdict() -> dict:
 'palegreen': (120, 93, 79),
 'paleturquoise': (180, 65, 81),
 'palevioletred': (340, 60, 65),
-'palegoldenrod': (120, 93, 79),
+'palegoldenrod': (55, 67, 80),
 'palegreen1': (120, 100, 80),
 'palegreen2': (120, 73, 75),
 'palegreen3': (120, 45, 65),
@@ -699,27 +699,27 @@ def getX11colorname2RGBdict() -> dict:
 'aliceblue': 15792383,
 'antiquewhite': 15792383,
 'antiquewhite': 16444375,
-'antiquewhite1': 16444375,
-'antiquewhite2': 16773083,
-'antiquewhite3': 15654860,
-'antiquewhite4': 13484208,
+'antiquewhite1': 16773083,
+'antiquewhite2': 15654860,
+'antiquewhite3': 13484208,
+'antiquewhite4': 9143160,
 'aqua': 65535,
 'aquamarine': 65535,
 'aquamarine1': 8388564,
-'aquamarine2': 8388564,
-'aquamarine3': 7794374,
-'aquamarine4': 6737322,
-'azure': 4557684,
+'aquamarine2': 7794374,
+'aquamarine3': 6737322,
+'aquamarine4': 4557684,
+'azure': 15794175,
 'azure1': 15794175,
-'azure2': 15794175,
-'azure3': 14741230,
-'azure4': 12701133,
-'beige': 8620939,
-'bisque': 16119260,
+'azure2': 14741230,
+'azure3': 12701133,
+'azure4': 8620939,
+'beige': 16119260,
+'bisque': 16770244,
 'bisque1': 16770244,
-'bisque2': 16770244,
-'bisque3': 15652279,
-'bisque4': 13481886,
+'bisque2': 15652279,
+'bisque3': 13481886,
+'bisque4': 9141611,
 'black': 0,
 'blanchedalmond': 16772045,
 'blue': 255,
@@ -794,7 +794,7 @@ def getX11colorname2RGBdict() -> dict:
 'darkgoldenrod2': 15641870,
 'darkgoldenrod3': 13473036,
 'darkgoldenrod4': 9135368,
-'darkgray': 5597999,
+'darkgray': 11119017,
 'darkolivegreen1': 13303664,
 'darkolivegreen2': 12381800,
 'darkolivegreen3': 10669402,
@@ -807,12 +807,12 @@ def getX11colorname2RGBdict() -> dict:
 'darkorchid2': 11680494,
 'darkorchid3': 10105549,
 'darkorchid4': 6824587,
-'darkred': 9419919,
+'darkred': 9109504,
 'darkseagreen1': 12713921,
 'darkseagreen2': 11857588,
 'darkseagreen3': 10210715,
 'darkseagreen4': 6916969,
-'darkslateblue': 3100495,
+'darkslateblue': 4734347,
 'darkslategray1': 9961471,
 'darkslategray2': 9301742,
 'darkslategray3': 7982541,
@@ -1124,7 +1124,7 @@ def getX11colorname2RGBdict() -> dict:
 'lightblue2': 11722734,
 'lightblue3': 10141901,
 'lightblue4': 6849419,
-'lightcoral': 14745599,
+'lightcoral': 15761536,
 'lightcyan1': 14745599,
 'lightcyan2': 13758190,
 'lightcyan3': 11849165,
@@ -1133,7 +1133,7 @@ def getX11colorname2RGBdict() -> dict:
 'lightgoldenrod2': 15654018,
 'lightgoldenrod3': 13483632,
 'lightgoldenrod4': 9142604,
-'lightgoldenrodyellow': 16758465,
+'lightgoldenrodyellow': 16448210,
 'lightpink1': 16756409,
 'lightpink2': 15639213,
 'lightpink3': 13470869,
@@ -1142,7 +1142,7 @@ def getX11colorname2RGBdict() -> dict:
 'lightsalmon2': 15635826,
 'lightsalmon3': 13468002,
 'lightsalmon4': 9131842,
-'lightseagreen': 8900346,
+'lightseagreen': 2142890,
 'lightskyblue1': 11592447,
 'lightskyblue2': 10802158,
 'lightskyblue3': 9287373,
@@ -1178,7 +1178,7 @@ def getX11colorname2RGBdict() -> dict:
 'mediumspringgreen': 64154,
 'mediumturquoise': 4772300,
 'mediumvioletred': 13047173,
-'mediumaquamarine': 12211667,
+'mediumaquamarine': 6737322,
 'mediumorchid1': 14706431,
 'mediumorchid2': 13721582,
 'mediumorchid3': 11817677,
@@ -1187,7 +1187,7 @@ def getX11colorname2RGBdict() -> dict:
 'mediumpurple2': 10451438,
 'mediumpurple3': 9005261,
 'mediumpurple4': 6113163,
-'mediumseagreen': 13047173,
+'mediumseagreen': 3978097,
 'midnightblue': 1644912,
 'mintcream': 16121850,
 'mistyrose': 16770273,
@@ -1229,7 +1229,7 @@ def getX11colorname2RGBdict() -> dict:
 'palegreen': 10025880,
 'paleturquoise': 11529966,
 'palevioletred': 14381203,
-'palegoldenrod': 10025880,
+'palegoldenrod': 15657130,
 'palegreen1': 10157978,
 'palegreen2': 9498256,
 'palegreen3': 8179068,
@@ -1394,27 +1394,27 @@ def getX11RGBfactors() -> dict:
 'aliceblue': [0.941176, 0.972549, 1.000000],
 'antiquewhite': [0.941176, 0.972549, 1.000000],
 'antiquewhite': [0.980392, 0.921569, 0.843137],
-'antiquewhite1': [0.980392, 0.921569, 0.843137],
-'antiquewhite2': [1.000000, 0.937255, 0.858824],
-'antiquewhite3': [0.933333, 0.874510, 0.800000],
-'antiquewhite4': [0.803922, 0.752941, 0.690196],
+'antiquewhite1': [1.000000, 0.937255, 0.858824],
+'antiquewhite2': [0.933333, 0.874510, 0.800000],
+'antiquewhite3': [0.803922, 0.752941, 0.690196],
+'antiquewhite4': [0.545098, 0.513725, 0.470588],
 'aqua': [0.000000, 1.000000, 1.000000],
 'aquamarine': [0.000000, 1.000000, 1.000000],
 'aquamarine1': [0.498039, 1.000000, 0.831373],
-'aquamarine2': [0.498039, 1.000000, 0.831373],
-'aquamarine3': [0.462745, 0.933333, 0.776471],
-'aquamarine4': [0.400000, 0.803922, 0.666667],
-'azure': [0.270588, 0.545098, 0.454902],
+'aquamarine2': [0.462745, 0.933333, 0.776471],
+'aquamarine3': [0.400000, 0.803922, 0.666667],
+'aquamarine4': [0.270588, 0.545098, 0.454902],
+'azure': [0.941176, 1.000000, 1.000000],
 'azure1': [0.941176, 1.000000, 1.000000],
-'azure2': [0.941176, 1.000000, 1.000000],
-'azure3': [0.878431, 0.933333, 0.933333],
-'azure4': [0.756863, 0.803922, 0.803922],
-'beige': [0.513725, 0.545098, 0.545098],
-'bisque': [0.960784, 0.960784, 0.862745],
+'azure2': [0.878431, 0.933333, 0.933333],
+'azure3': [0.756863, 0.803922, 0.803922],
+'azure4': [0.513725, 0.545098, 0.545098],
+'beige': [0.960784, 0.960784, 0.862745],
+'bisque': [1.000000, 0.894118, 0.768627],
 'bisque1': [1.000000, 0.894118, 0.768627],
-'bisque2': [1.000000, 0.894118, 0.768627],
-'bisque3': [0.933333, 0.835294, 0.717647],
-'bisque4': [0.803922, 0.717647, 0.619608],
+'bisque2': [0.933333, 0.835294, 0.717647],
+'bisque3': [0.803922, 0.717647, 0.619608],
+'bisque4': [0.545098, 0.490196, 0.419608],
 'black': [0.000000, 0.000000, 0.000000],
 'blanchedalmond': [1.000000, 0.921569, 0.803922],
 'blue': [0.000000, 0.000000, 1.000000],
@@ -1484,12 +1484,12 @@ def getX11RGBfactors() -> dict:
 'darkslategrey': [0.184314, 0.309804, 0.309804],
 'darkturquoise': [0.000000, 0.807843, 0.819608],
 'darkviolet': [0.580392, 0.000000, 0.827451],
-'darkblue': [0.721569, 0.525490, 0.043137],
+'darkblue': [0.000000, 0.000000, 0.545098],
 'darkgoldenrod1': [1.000000, 0.725490, 0.058824],
 'darkgoldenrod2': [0.933333, 0.678431, 0.054902],
 'darkgoldenrod3': [0.803922, 0.584314, 0.047059],
 'darkgoldenrod4': [0.545098, 0.396078, 0.031373],
-'darkgray': [0.333333, 0.419608, 0.184314],
+'darkgray': [0.662745, 0.662745, 0.662745],
 'darkolivegreen1': [0.792157, 1.000000, 0.439216],
 'darkolivegreen2': [0.737255, 0.933333, 0.407843],
 'darkolivegreen3': [0.635294, 0.803922, 0.352941],
@@ -1502,12 +1502,12 @@ def getX11RGBfactors() -> dict:
 'darkorchid2': [0.698039, 0.227451, 0.933333],
 'darkorchid3': [0.603922, 0.196078, 0.803922],
 'darkorchid4': [0.407843, 0.133333, 0.545098],
-'darkred': [0.560784, 0.737255, 0.560784],
+'darkred': [0.545098, 0.000000, 0.000000],
 'darkseagreen1': [0.756863, 1.000000, 0.756863],
 'darkseagreen2': [0.705882, 0.933333, 0.705882],
 'darkseagreen3': [0.607843, 0.803922, 0.607843],
 'darkseagreen4': [0.411765, 0.545098, 0.411765],
-'darkslateblue': [0.184314, 0.309804, 0.309804],
+'darkslateblue': [0.282353, 0.239216, 0.545098],
 'darkslategray1': [0.592157, 1.000000, 1.000000],
 'darkslategray2': [0.552941, 0.933333, 0.933333],
 'darkslategray3': [0.474510, 0.803922, 0.803922],
@@ -1819,7 +1819,7 @@ def getX11RGBfactors() -> dict:
 'lightblue2': [0.698039, 0.874510, 0.933333],
 'lightblue3': [0.603922, 0.752941, 0.803922],
 'lightblue4': [0.407843, 0.513725, 0.545098],
-'lightcoral': [0.878431, 1.000000, 1.000000],
+'lightcoral': [0.941176, 0.501961, 0.501961],
 'lightcyan1': [0.878431, 1.000000, 1.000000],
 'lightcyan2': [0.819608, 0.933333, 0.933333],
 'lightcyan3': [0.705882, 0.803922, 0.803922],
@@ -1828,7 +1828,7 @@ def getX11RGBfactors() -> dict:
 'lightgoldenrod2': [0.933333, 0.862745, 0.509804],
 'lightgoldenrod3': [0.803922, 0.745098, 0.439216],
 'lightgoldenrod4': [0.545098, 0.505882, 0.298039],
-'lightgoldenrodyellow': [1.000000, 0.713725, 0.756863],
+'lightgoldenrodyellow': [0.980392, 0.980392, 0.823529],
 'lightpink1': [1.000000, 0.682353, 0.725490],
 'lightpink2': [0.933333, 0.635294, 0.678431],
 'lightpink3': [0.803922, 0.549020, 0.584314],
@@ -1837,7 +1837,7 @@ def getX11RGBfactors() -> dict:
 'lightsalmon2': [0.933333, 0.584314, 0.447059],
 'lightsalmon3': [0.803922, 0.505882, 0.384314],
 'lightsalmon4': [0.545098, 0.341176, 0.258824],
-'lightseagreen': [0.529412, 0.807843, 0.980392],
+'lightseagreen': [0.125490, 0.698039, 0.666667],
 'lightskyblue1': [0.690196, 0.886275, 1.000000],
 'lightskyblue2': [0.643137, 0.827451, 0.933333],
 'lightskyblue3': [0.552941, 0.713725, 0.803922],
@@ -1873,7 +1873,7 @@ def getX11RGBfactors() -> dict:
 'mediumspringgreen': [0.000000, 0.980392, 0.603922],
 'mediumturquoise': [0.282353, 0.819608, 0.800000],
 'mediumvioletred': [0.780392, 0.082353, 0.521569],
-'mediumaquamarine': [0.729412, 0.333333, 0.827451],
+'mediumaquamarine': [0.400000, 0.803922, 0.666667],
 'mediumorchid1': [0.878431, 0.400000, 1.000000],
 'mediumorchid2': [0.819608, 0.372549, 0.933333],
 'mediumorchid3': [0.705882, 0.321569, 0.803922],
@@ -1882,7 +1882,7 @@ def getX11RGBfactors() -> dict:
 'mediumpurple2': [0.623529, 0.474510, 0.933333],
 'mediumpurple3': [0.537255, 0.407843, 0.803922],
 'mediumpurple4': [0.364706, 0.278431, 0.545098],
-'mediumseagreen': [0.780392, 0.082353, 0.521569],
+'mediumseagreen': [0.235294, 0.701961, 0.443137],
 'midnightblue': [0.098039, 0.098039, 0.439216],
 'mintcream': [0.960784, 1.000000, 0.980392],
 'mistyrose': [1.000000, 0.894118, 0.882353],
@@ -1924,7 +1924,7 @@ def getX11RGBfactors() -> dict:
 'palegreen': [0.596078, 0.984314, 0.596078],
 'paleturquoise': [0.686275, 0.933333, 0.933333],
 'palevioletred': [0.858824, 0.439216, 0.576471],
-'palegoldenrod': [0.596078, 0.984314, 0.596078],
+'palegoldenrod': [0.933333, 0.909804, 0.666667],
 'palegreen1': [0.603922, 1.000000, 0.603922],
 'palegreen2': [0.564706, 0.933333, 0.564706],
 'palegreen3': [0.486275, 0.803922, 0.486275],
-- 
2.43.0


From 10cddc53e1caca42f0f7ba7ea758f4f5556f6e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:23 +0000
Subject: [PATCH 39/85] fix: stray space in the key of the midasc default
 luminosity range

---
 pythonbmp/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index a237a35..ab0d150 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -51,7 +51,7 @@ def getdefaultlumrange() -> dict:
     return {'maxdesc': [255, 0],
              'maxasc': [0, 255],
             'middesc': [192, 64],
-            ' midasc': [64, 192],
+            'midasc': [64, 192],
           'upperdesc': [255, 128],
            'upperasc': [128, 255],
           'lowerdesc': [128, 0],
-- 
2.43.0


From 3ca62318c8fababa8a503ada33ec236e5134355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:09 +0000
Subject: [PATCH 40/85] fix: loadBMP reads the reserved header bytes as part of
 the file size

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index c66ab9c..384a878 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -1457,7 +1457,7 @@ def loadBMP(filename: str) -> array:
         if hd != b'BM':
             print(sysmsg['notBMP'])
         else:
-            fsize = char2int(f.read(8))
+            fsize = char2int(f.read(4))
             if fsize > 54:
                 f.seek(0)
                 a.frombytes(f.read(fsize))
-- 
2.43.0


From 211d6e0571b3a36b4124b4e660cee40439bc6be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:51 +0000
Subject: [PATCH 41/85] fix: sphere2file and autocropimg2file report a missing
 source file instead of raising

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 384a878..7611d5f 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -13721,6 +13721,7 @@ def _use24btclrfnwithpar2circreg(
             ExistingBMPfile, NewBMPfile))
 
 
+@checklink
 def _use24btclrfnwithmultpar2circreg(
         ExistingBMPfile: str,
         NewBMPfile: str,
@@ -14618,6 +14619,7 @@ def invertregion2file(
         x1, y1, x2, y2, invertregion)
 
 
+@checklink
 @functimer
 def autocropimg2file(
         ExistingBMPfile: str,
-- 
2.43.0


From cb6b8962f98758b695f7959e942888c208c2e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 42/85] fix: cropping by a boundary that reaches the right or
 bottom border saved nothing

---
 pythonbmp/BITMAPlib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7611d5f..ee986d4 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -13929,11 +13929,12 @@ def cropBMPandsaveusingrectbnd(
     Returns:
         new bitmap file
     """
+    mx, my = getmaxxy(loadBMP(ExistingBMPfile))
     _usefn2regsv(ExistingBMPfile,
         NewBMPfile, rectbnd[0][0],
         rectbnd[0][1],
-        rectbnd[1][0] + 1,
-        rectbnd[1][1] + 1, crop)
+        min(rectbnd[1][0] + 1, mx - 1),
+        min(rectbnd[1][1] + 1, my - 1), crop)
 
 
 @checklinks
-- 
2.43.0


From 4ad14b883a22dc864f7cd37115379262dc08e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 43/85] fix: palette made from an image with few colors was not
 stored

---
 pythonbmp/BITMAPlib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index ee986d4..71d0570 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -1319,7 +1319,9 @@ def setnewpalfromsourcebmp(
         colorhistogram(sourcebmp),
         getmaxcolors(newbmp),
         similaritythreshold)
-    setbmppal(newbmp, newpal)
+    unused = getmaxcolors(newbmp) - len(newpal)
+    setbmppal(newbmp, newpal +
+        [[0, 0, 0]] * unused)
     return newpal
 
 
-- 
2.43.0


From 0e1b19fa46bd99863c5fbae3abdb490b14ae3eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 44/85] fix: vertline above or below the image corrupts 8 and
 24-bit buffers

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 71d0570..66ba14e 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2095,6 +2095,8 @@ def vertline(bmp: array, x: int,
             y1 = setmin(y1, 0)
             y2 = setmax(y2, my - 1)
             dy = y2 - y1 + 1
+            if dy < 1:
+                return
             rgb = int2RGBlist(color)
             s = c(bmp, x, y2)
             e = c(bmp, x, y1) + r
-- 
2.43.0


From c0ce0a4902251e79798437c2543021b255573eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:56 +0000
Subject: [PATCH 45/85] fix: gradthickellipserot ignores its gradient function

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 66ba14e..77ea875 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3706,7 +3706,7 @@ def gradthickellipserot(bmp: array,
     """
     (l1, l2) = lumrange
     for i in range(penradius, 0, -1):
-        c = colormix(int(lerp(l1, l2, i / penradius)),
+        c = colormix(int(fn(l1, l2, i / penradius)),
                 RGBfactors)
         if bmp[bmpcolorbits] != 24:
             c = matchRGBtopal(
-- 
2.43.0


From 1696bda2c98dc7c043d8fee2c4add8e16cc01207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:08 +0000
Subject: [PATCH 46/85] fix: gradellipse inner ellipses grow again past the
 outline when the axes differ a lot

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 77ea875..f68f867 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3862,7 +3862,7 @@ def gradellipse(bmp: array,
     r = max(a, b)
     a -= r
     b -= r
-    for i in range(r, 0, -1):
+    for i in range(r, max(-a, -b, 1) - 1, -1):
         c = colormix(
                 int(fn(l1, l2, i / r)),
                 RGBfactors)
-- 
2.43.0


From 1a32926f4e54bb05f9afcb98beef262c04e7c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 47/85] fix: arcs of small radius are filled wrong or raise
 (missing straight edge)

---
 pythonbmp/primitives2D.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 82e65a7..07d9645 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -636,6 +636,7 @@ def arcvert(x: int, y: int, r: int,
     c = (x, y)
     sa = radians(startdegangle)
     ea = radians(enddegangle)
+    missing = {sa, ea} if ea > sa else set()
     for p in itercircle(x, y, r):
         pc = rect2polarcoord2Dwithcenter(c, p)
         a = pc[1]
@@ -644,6 +645,11 @@ def arcvert(x: int, y: int, r: int,
             if abs(a - sa) < tol or \
                abs(a - ea) < tol: #for larger arcs tol may be >0.03
                 v.extend(iter(iterline(c, p)))
+                missing -= {e for e in missing if abs(a - e) < tol}
+    for e in sorted(missing): #small arcs may have no point that close
+        q = (x + r * sin(e), y - r * cos(e))
+        p = min(itercircle(x, y, r), key=lambda p: vmag(subvect(p, q)))
+        v.extend(iter(iterline(c, p)))
     return v
 
 
-- 
2.43.0


From 0465918b864edcb57ba7673418b217c450439b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 48/85] fix: pie chart with two equal halves shows only one of
 them

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index f68f867..c5bfd60 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12343,8 +12343,8 @@ def piechart(bmp: array,
     if big > -1: #for speed more computions in drawarc
             circle(bmp, x, y, r,
                 alist[big][2], True)
-    for a in alist:
-        if a[4] < 50:
+    for i, a in enumerate(alist):
+        if i != big:
             drawarc(bmp, x, y, r,
                 a[0], a[1], a[2],
                 True, a[2], True)
-- 
2.43.0


From 8766922cd131f72345742c5c6acae739106f701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:02 +0000
Subject: [PATCH 49/85] fix: scatter plot draws data outside the axes in the
 image corner

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index c5bfd60..b2f8f14 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7310,6 +7310,8 @@ def XYscatterplot(
         r = v[2]
         w = userdef2Dcooordsys2screenxy(
                 v[0], v[1], XYcoordinfo)
+        if w == [-1, -1]:
+            continue
         if r>1:
             circlevec(bmp, w,
                 setmax(r, 5), v[3], v[4])
-- 
2.43.0


From 555787f91b9d9e2ea6226f2b09ab03428bffa37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 50/85] fix: falling regression line that starts above the axes
 is drawn from the image corner

---
 pythonbmp/BITMAPlib.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index b2f8f14..1d46980 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7328,12 +7328,18 @@ def XYscatterplot(
                 xmin, ymin, XYcoordinfo)
         w = userdef2Dcooordsys2screenxy(
                 xmax, ymax, XYcoordinfo)
-        if w == [-1, -1]:
+        if w == [-1, -1] and m > 0:
             ymax = XYcoordinfo[5][1]
             xmax = (ymax - b) / m
             w = userdef2Dcooordsys2screenxy(
                     xmax, ymax, XYcoordinfo)
-        linevec(bmp, u, w, reglinecolor)
+        if u == [-1, -1] and m < 0:
+            ymin = XYcoordinfo[5][1]
+            xmin = (ymin - b) / m
+            u = userdef2Dcooordsys2screenxy(
+                    xmin, ymin, XYcoordinfo)
+        if u != [-1, -1] and w != [-1, -1]:
+            linevec(bmp, u, w, reglinecolor)
 
 
 def getneighborcolorlist(
-- 
2.43.0


From 537a710b43a2845796d508dcb9c501d99b9b8e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:47 +0000
Subject: [PATCH 51/85] fix: numbervert repeats a number where two vertices
 coincide

---
 pythonbmp/BITMAPlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 1d46980..1cce111 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7086,8 +7086,7 @@ def numbervert(bmp: array,
         rightjustify: bool):
     plot = False
     maxv = len(vlist) - 1
-    for v in vlist:
-        i = vlist.index(v)
+    for i, v in enumerate(vlist):
         plot = True if i > 0 else not suppresszero
         if i == maxv and suppresslastnum:
             plot = False
-- 
2.43.0


From 7864b1abda3f9c70f280eba7bce6c2667d94b561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:18 +0000
Subject: [PATCH 52/85] fix: filled arc without circle pixels raises, above 180
 degrees fills beyond its sector

---
 pythonbmp/BITMAPlib.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 1cce111..8304650 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3904,16 +3904,20 @@ def drawarc(bmp: array,
         byref modified unsigned byte array
     """
     av = arcvert(x, y, r,
-         startdegangle, enddegangle)
+            startdegangle, enddegangle)
     for p in av:
-        plotxybit(bmp, p[0], p[1],
-            color)
-    if isfilled:
-        fillboundary(bmp,
-            fillpolydata(av,
-                getmaxx(bmp),
-                getmaxy(bmp)),
-                fillcolor)
+        plotxybit(bmp, p[0], p[1], color)
+    if isfilled and av:
+        avs = [av]
+        if enddegangle - startdegangle > 180: #not convex
+            mid = (startdegangle + enddegangle) / 2
+            avs = [arcvert(x, y, r, startdegangle, mid),
+                   arcvert(x, y, r, mid, enddegangle)]
+        for av in avs:
+            fillboundary(bmp,
+                fillpolydata(av,
+                    getmaxx(bmp),
+                    getmaxy(bmp)), fillcolor)
 
 
 def rectangle(bmp: array,
-- 
2.43.0


From bdc2937e944fe8eb2066453ec1a4563c6563b30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 53/85] fix: changing the list returned by getdefaultbitpal
 changed the palette of all later images

---
 pythonbmp/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index ab0d150..6677421 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -84,7 +84,7 @@ def getdefaultbitpal(
     Returns:
         list of palette entries
     """
-    return bmpstdpal[bits]
+    return [c[:] for c in bmpstdpal[bits]]
 
 
 def colormix(lum: int,
-- 
2.43.0


From 972609f9c8224e9edd093b9fd2c0d2a1fb88ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 54/85] fix: isorthogonal compares element products instead of
 the inner product

---
 pythonbmp/mathlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index 79939a9..4c7e22d 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -633,7 +633,7 @@ def isorthogonal(
                 so they are
                 nonorthogonal vectors
     """
-    return vectiszero(mulvect(u, v))
+    return dotprod(u, v) == 0
 
 
 def crossprod3d(
-- 
2.43.0


From 3839701a04486eaeb2c638b8717714f20a0a92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 55/85] fix: conversions to polar, cylindrical and spherical
 coordinates lose the quadrant and divide by zero

---
 pythonbmp/mathlib.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index 4c7e22d..ac800b8 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -20,6 +20,7 @@ from math import(
     asin,
     acos,
     atan,
+    atan2,
     cos,
     cosh,
     degrees,
@@ -886,7 +887,7 @@ def rect2sphericalcoord3D(
         phi: float]
     """
     p = vmag(v)
-    return [p, atan(v[1] / v[0]),
+    return [p, atan2(v[1], v[0]),
                acos(v[2] / p)]
 
 
@@ -938,8 +939,8 @@ def rect2cylindricalcoord3D(
              angle: float,
              z: Number]
     """
-    return [vmag(v),
-            atan(v[1] / v[0]),
+    return [vmag(v[0:2]),
+            atan2(v[1], v[0]),
             v[2]]
 
 
@@ -998,7 +999,7 @@ def rect2polarcoord2D(
     Returns:
         [magnitude: float, angle: float]
     """
-    return [vmag(v), atan(v[1] / v[0])]
+    return [vmag(v), atan2(v[1], v[0])]
 
 
 def polarcoordangle2D(v:list) -> float:
-- 
2.43.0


From a18b9aba2fbcc457244b3524f3f59f6b354de6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 56/85] fix: spirograph pen turned the wrong way inside the
 rolling circle

---
 pythonbmp/primitives2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 07d9645..2808e79 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -949,7 +949,7 @@ def iterspirograph(
     q = complex(x, y)
     while a < lim:
         z = r * (rect(d, a) + \
-                 rect(e, a * f)) + q
+                 rect(e, -a * f)) + q
         a += delta
         yield (round(z.real),
                round(z.imag))
-- 
2.43.0


From f221f58d79915a3d3567cdae911f9dfdac42715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 57/85] fix: circle involute was an Archimedean spiral

---
 pythonbmp/primitives2D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 2808e79..1d3330c 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1078,8 +1078,8 @@ def itercircleinvolute(
     t = 0
     b = complex(x, y)
     while t < lim:
-        z = rect(1, t)
-        z *= a * z * t * 1j
+        z = rect(a, t)
+        z -= z * t * 1j
         t += delta
         z += b
         yield (round(z.real),
-- 
2.43.0


From bf453346ede0ef9dc5a0a09fc27a952928ab183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 58/85] fix: hypotrochoid rolled outside the fixed circle

---
 pythonbmp/primitives2D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 1d3330c..00919ee 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1208,12 +1208,12 @@ def iterhypotrochoid(
         [[x: int, y: int], ...]
     """
     p = a - b
-    d = (a / b) + 1
+    d = (a / b) - 1
     t = 0
     q = complex(x, y)
     while t < lim:
-        z = rect(p, t) - \
-            rect(c, d * t) + q
+        z = rect(p, t) + \
+            rect(c, -d * t) + q
         t += delta
         yield (round(z.real),
                round(z.imag))
-- 
2.43.0


From 11d6589fde654fc2e2eecd342987f6224f3e53fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 59/85] fix: egg curve fell short of its length

---
 pythonbmp/primitives2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 00919ee..5ec7847 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1552,7 +1552,7 @@ def itereggcurve(cx: int, cy: int,
         for x in range(a):
             y = int(((k - 2 * x + \
                       ((_4b * x + \
-            k) ** p).real) ** p).real * \
+            k * k) ** p).real) ** p).real * \
             (x ** p).real / sqrt2)
             if y > 0:
                 px = cx + x - c
-- 
2.43.0


From 618698c4b3797e6a62be0982c3f47bf5dbd02b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 60/85] fix: regular polygons whose side count does not divide
 360 were uneven or had extra corners

---
 pythonbmp/primitives2D.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 5ec7847..f0ae1e3 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -517,11 +517,9 @@ def floatregpolygonvert(
     """
     v = []
     angle = radians(angle)
-    anginc = 360 // sides
-    maxang = 360
     q = complex(cx, cy)
-    for a in range(0, maxang, anginc):
-        ang = angle + radians(a)
+    for i in range(sides):
+        ang = angle + radians(360 * i / sides)
         z = q - r * complex(sin(ang), cos(ang))
         v.append([z.real, z.imag])
     return v
-- 
2.43.0


From b626dba27522aeae08527786184c001ceb4017ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 61/85] fix: Bezier curves ignored the last control point and
 stopped short of their end

---
 pythonbmp/primitives2D.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index f0ae1e3..7457261 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -366,21 +366,19 @@ def iterbeziercurve(
     cnt = len(pntlist)
     w = v = pntlist[0]
     klim = cnt << 2
-    for i in range(cnt):
-        if i > cnt - 2:
-            last = i - 1
-            for k in range(klim):
-                u = k / klim
-                v = [0, 0]
-                for j in range(i):
-                    v = addvect(v,
-                         scalarmulvect(
-                                pntlist[j],
-                          _bezierblend(
-                                j, last, u)))
-                yield from iterline(roundvect(v),
-                                    roundvect(w))
-                w = v
+    last = cnt - 1
+    for k in range(klim + 1):
+        u = k / klim
+        v = [0, 0]
+        for j in range(cnt):
+            v = addvect(v,
+                 scalarmulvect(
+                        pntlist[j],
+                  _bezierblend(
+                        j, last, u)))
+        yield from iterline(roundvect(v),
+                            roundvect(w))
+        w = v
 
 
 def beziercurvevert(
-- 
2.43.0


From 83eff92cf70798b6b0b76a6835ac1284d80d99c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 62/85] fix: open B-splines missed their first two segments

---
 pythonbmp/primitives2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 7457261..5395cdf 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -433,7 +433,7 @@ def iterbspline(
                 k = i + j
                 v = addvect(v, scalarmulvect(
                      pntlist[k % cnt if curveback else setmax(k, mx)], nc[j]))
-            if i > 1:
+            if i > 1 or not curveback:
                 yield from iterline(roundvect(v),
                                     roundvect(w))
             w = v
-- 
2.43.0


From 8676e5d40497a4193394a37fc588feb4d35399d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 63/85] fix: upright Hilbert curve left images that are not
 square

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 8304650..4d8d153 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12214,7 +12214,7 @@ def savehilbertcurve2file(
     y -= 1
     if backgroundcolor > 0:
         filledrect(bmp, 0, 0, x, y, backgroundcolor)
-    o =  (0, x, y, 0) if orientation == 1 \
+    o =  (0, y, x, 0) if orientation == 1 \
     else (x, 0, 0, y)
     l = []
     hilbertvert(l, (0, 0), o, order)
-- 
2.43.0


From c6a83d8e3da2de6b0185e4802eb5f9928ad9897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 64/85] fix: altsplitbufnway put bytes of an incomplete group
 in the first list

---
 pythonbmp/buffersplit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/buffersplit.py b/pythonbmp/buffersplit.py
index acfe368..1ac47dd 100644
--- a/pythonbmp/buffersplit.py
+++ b/pythonbmp/buffersplit.py
@@ -68,6 +68,6 @@ def altsplitbufnway(buf: list[any],
     m = len(buf)
     j = n - 1
     for i in range(n):
-        retval += [buf[i: m - j: n]]
+        retval += [buf[i: max(m - j, 0): n]]
         j -= 1
     return retval
\ No newline at end of file
-- 
2.43.0


From 0d879713a257470cab333f57a50775e1563c3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 65/85] fix: elapsed time showed small fractions of a second
 too large

---
 pythonbmp/proctimer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/proctimer.py b/pythonbmp/proctimer.py
index 4d7a0f0..079615f 100644
--- a/pythonbmp/proctimer.py
+++ b/pythonbmp/proctimer.py
@@ -51,7 +51,7 @@ def hhmmsselaspedtime(inittime: int
         ((f'{str(hrs).zfill(2)}:' + str(mins).zfill(2)) + ':')
         + str(secs).zfill(2)
         + '.'
-    ) + str(ns)
+    ) + str(ns).zfill(9)
 
 
 def functimer(func):
-- 
2.43.0


From ce2297a61f884fee2187b093c2ccb398fa71f681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 66/85] fix: tetrahedra and hexahedra were inside out, showing
 their hidden faces

---
 pythonbmp/solids3D.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 2bfbe2a..b4dc894 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -53,22 +53,22 @@ def getshapesidedict() -> dict:
         dictionary of side or polygon
         definitions for basic solids
     """
-    return {"tetrahedra":((2, 1, 0),
-                          (2, 3, 1),
-                          (0, 3, 2),
-                          (3, 0, 1)),
+    return {"tetrahedra":((0, 1, 2),
+                          (1, 3, 2),
+                          (2, 3, 0),
+                          (1, 0, 3)),
                   "cube":((1, 2, 3, 0),
                           (5, 6, 7, 4),
                           (0, 3, 6, 5),
                           (4, 7, 2, 1),
                           (4, 1, 0, 5),
                           (2, 7, 6, 3)),
-             "hexahedra":((2, 3, 1),
-                          (0, 3, 2),
-                          (3, 0, 1),
-                          (1, 4, 2),
-                          (2, 4, 0),
-                          (1, 0, 4)),
+             "hexahedra":((1, 3, 2),
+                          (2, 3, 0),
+                          (1, 0, 3),
+                          (2, 4, 1),
+                          (0, 4, 2),
+                          (4, 0, 1)),
              "octahedra":((1, 2, 0),
                           (4, 1, 0),
                           (3, 4, 0),
-- 
2.43.0


From 333a2e3395019b03cf02d307dacf99882d0c3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 67/85] fix: spheres were inside out, showing their hidden
 faces

---
 pythonbmp/solids3D.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index b4dc894..d8da1c7 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -542,8 +542,8 @@ def genspheresurfaces(
     i = 0
     for i in range(lpts):
         j = 0 if i == maxp else i + 1
-        surf += [[northpole, npts[j], npts[i]],
-                 [southpole, spts[i], spts[j]]]
+        surf += [[northpole, npts[i], npts[j]],
+                 [southpole, spts[j], spts[i]]]
     if levels > 2:
         mxlv = levels - 1
         for k in range(1, mxlv):
@@ -555,9 +555,9 @@ def genspheresurfaces(
             i = 0
             for i in range(lpts):
                 j = 0 if i == maxp else i + 1
-                surf += [[adjpts[j % maxadjpts],
-                          adjpts[i % maxadjpts],
-                          pts[i], pts[j]]]
+                surf += [[adjpts[i % maxadjpts],
+                          adjpts[j % maxadjpts],
+                          pts[j], pts[i]]]
     return surf
 
 
-- 
2.43.0


From 7242980bfa4f517e7f9476e9d61b3931724b391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 68/85] fix: south pole of a sphere did not move with its
 centre

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index d8da1c7..86cfbd4 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -480,7 +480,7 @@ def spherevert(vcen: list[float,
                            radians(phi)]))
             if p not in plist:
                 plist.append(p)
-    p = [0, 0, -r]
+    p = addvect(vcen, [0, 0, -r])
     if p not in plist:
         plist.append(p)
     return plist
-- 
2.43.0


From 140a2c7035059d8a50f2fef0602d139a798d373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 69/85] fix: sides of tetrahedra, hexahedra and octahedra were
 not of the given length

---
 pythonbmp/solids3D.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 86cfbd4..21a1c17 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -97,9 +97,9 @@ def tetrahedravert(x: float
     x_sqr = x**2
     halfx= x / 2
     return [[0, 0, 0],
-            [halfx, sqrt(x_sqr / 2), 0],
+            [halfx, sqrt(3 / 4 * x_sqr), 0],
             [x, 0, 0],
-            [halfx, halfx, sqrt(3 / 8 * x_sqr)]]
+            [halfx, sqrt(x_sqr / 12), sqrt(2 / 3 * x_sqr)]]
 
 
 def cubevert(x: float
@@ -144,12 +144,13 @@ def hexahedravert(x: float
     """
     x_sqr = x**2
     halfx= x / 2
-    z = sqrt(3 / 8 * x_sqr)
+    y = sqrt(x_sqr / 12)
+    z = sqrt(2 / 3 * x_sqr)
     return [[0, 0, 0],
-            [halfx, sqrt(x_sqr / 2), 0],
+            [halfx, sqrt(3 / 4 * x_sqr), 0],
             [x, 0, 0],
-            [halfx, halfx, z],
-            [halfx, halfx, -z]]
+            [halfx, y, z],
+            [halfx, y, -z]]
 
 
 def octahedravert(x: float
@@ -168,12 +169,13 @@ def octahedravert(x: float
               z: float)
     """
     halfx = x / 2
-    return [[halfx, halfx, halfx],
+    z = sqrt(x ** 2 / 2)
+    return [[halfx, halfx, z],
             [0, 0, 0],
             [x, 0, 0],
             [x, x, 0],
             [0, x, 0],
-            [halfx, halfx, -halfx]]
+            [halfx, halfx, -z]]
 
 
 def decahedvertandsurface(
-- 
2.43.0


From 855be0b1d223309e9d7fce91c9fdd24d0c992963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 70/85] fix: decahedra had corners rounded to whole numbers

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 21a1c17..8b2176c 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -196,7 +196,7 @@ def decahedvertandsurface(
               y: float,
               z: float)
     """
-    pts = regpolygonvert(0, 0, x, 5, 0)
+    pts = floatregpolygonvert(0, 0, x, 5, 0)
     z = sqrt((dist(pts[0], pts[1]) ** 2 - x**2))
 
     return [[[0, 0, -z]] + \
-- 
2.43.0


From fd4cd4055d36a738590a4fa3d30028b3cc7cf8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 71/85] fix: surface plots lost or tore their squares when the
 step does not divide the width

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 8b2176c..4e6f7d8 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -707,7 +707,7 @@ def surfplot3Dvertandsurface(
         for x in range(x1, x2, step):
             z = fnxy(x, y)
             vlist.append([x, y, z])
-    dx = abs(x2 - x1) // step
+    dx = len(range(x1, x2, step))
     dx1 = dx - 1
     vl = len(vlist)
     for v in vlist:
-- 
2.43.0


From ea043a906b72ce8dd1b10c9a59b150dbb93973a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 72/85] fix: a face turned straight away from the light could
 not be drawn

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4d8d153..74a6463 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -6884,7 +6884,7 @@ def plotpolyfillist(
     for i, poly in enumerate(polylist):
         c = (
             colormix(
-                int(cosaffin(normlist[i], [0, 0, 1]) * 128) + 127, RGBfactors
+                max(int(cosaffin(normlist[i], [0, 0, 1]) * 128) + 127, 0), RGBfactors
             )
             if normlist[i] != [0, 0, 0]
             else colormix(127, RGBfactors)
-- 
2.43.0


From a8dfa4f8646ee451d91ec4e3ed4178ae6b051cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 73/85] fix: clip 8-bit fractals to the image and wrap
 iteration counts over 255

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 74a6463..4778f86 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -9254,7 +9254,7 @@ def plotmultifractal(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = c
+            plotxybit(bmp, x, y, c)
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
@@ -9312,7 +9312,7 @@ def plotmultifractalcomplexpar(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = v
+            plotxybit(bmp, x, y, v)
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-- 
2.43.0


From f5bfe63cf592d240426f0f0a56aa7f0fa371dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 74/85] fix: superellipse fractal in paletted images

---
 pythonbmp/BITMAPlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4778f86..e73f0cc 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -9254,19 +9254,19 @@ def plotmultifractal(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c)
+            plotxybit(bmp, x, y, int(c))
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c)
+            plotxybit(bmp, x, y, int(c))
     elif bits == 1:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c % maxcolors)
+            plotxybit(bmp, x, y, int(c) % maxcolors)
     else:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, (mcolor - c) % maxcolors)
+            plotxybit(bmp, x, y, (mcolor - int(c)) % maxcolors)
 
 
 def plotmultifractalcomplexpar(bmp: array,
-- 
2.43.0


From c19c692a787791267cedc9948070a42ca2a9b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 75/85] fix: iterated function systems drawn away from the
 origin start on the attractor

---
 pythonbmp/fractals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/fractals.py b/pythonbmp/fractals.py
index 7dea57a..76bcc0e 100644
--- a/pythonbmp/fractals.py
+++ b/pythonbmp/fractals.py
@@ -130,8 +130,8 @@ def iterIFS(
     x1, y1, x2, y2 = \
         sortrecpoints(x1, y1, x2, y2)
     (af, p) = IFStransparam
-    x = x1
-    y = y1
+    x = 0
+    y = 0
     dy = y2 - y1
     (p0, p1, p2) = p[0:3]
     for _ in range(maxiter):
-- 
2.43.0


From 609d45d44244bbb374ccd27f2b3a1bec045ef792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 76/85] fix: attractors that settle on a point or line, or fill
 every bin alike, plot instead of dividing by zero

---
 pythonbmp/BITMAPlib.py | 4 ++--
 pythonbmp/mathlib.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index e73f0cc..3e9584b 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12790,7 +12790,7 @@ def plotattractorcomplex(
     fh = ravel2D(h)
     minval = min(fh)
     bmp = newBMP(x, y, bits)
-    f = (getmaxcolors(bmp) - 1)/ (max(fh) - minval)
+    f = (getmaxcolors(bmp) - 1)/ ((max(fh) - minval) or 1)
     for q in range(y):
         for p in range(x):
             plotxybit(bmp, p, q, int((h[q][p] - minval) * f))
@@ -12814,7 +12814,7 @@ def plotattractor(
     fh = ravel2D(h)
     minval = min(fh)
     bmp = newBMP(x, y, bits)
-    f = (getmaxcolors(bmp) - 1)/ (max(fh) - minval)
+    f = (getmaxcolors(bmp) - 1)/ ((max(fh) - minval) or 1)
     for q in range(y):
         for p in range(x):
             plotxybit(bmp, p, q, int((h[q][p] - minval) * f))
diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index ac800b8..fe36789 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -1629,8 +1629,8 @@ def histogram2D(
         [[c: int:, c1: int, ...], ...]
     """
     (xmin, xmax, ymin, ymax) = getdomainbounds(v)
-    xbinsize = (xmax - xmin) / (xbins - 1)
-    ybinsize = (ymax - ymin) / (ybins - 1)
+    xbinsize = (xmax - xmin) / (xbins - 1) or 1
+    ybinsize = (ymax - ymin) / (ybins - 1) or 1
     h = initmatrix(xbins, ybins)
     for z in v:
         h[int((z[1] - ymin) / ybinsize)][int((z[0] - xmin) / xbinsize)] += 1
@@ -1651,8 +1651,8 @@ def histogram2Dcomplex(
         [[c: int:, c1: int, ...], ...]
     """
     (pmin, pmax, qmin, qmax) = getcomplexdomainbounds(v)
-    pbinsize = (pmax - pmin) / (pbins - 1)
-    qbinsize = (qmax - qmin) / (qbins - 1)
+    pbinsize = (pmax - pmin) / (pbins - 1) or 1
+    qbinsize = (qmax - qmin) / (qbins - 1) or 1
     h = initmatrix(pbins, qbins)
     for z in v:
         h[int((z.imag - qmin)/ qbinsize)][int((z.real - pmin)/ pbinsize)] += 1
-- 
2.43.0


From af71cdb402345169ff92f0460225d4c98f238d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 77/85] fix: rotation term of symmetric icons keeps their
 symmetry

---
 pythonbmp/fractals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/fractals.py b/pythonbmp/fractals.py
index 76bcc0e..646f1af 100644
--- a/pythonbmp/fractals.py
+++ b/pythonbmp/fractals.py
@@ -2167,7 +2167,7 @@ def symmetriciconattractorlist(
         v[i] = z = (a * abs(z * c) + l + \
         b * (z.real * p.real - \
              z.imag * p.imag)) * z + \
-        (g * p).conjugate() - o * c * 1j
+        (g * p).conjugate() + o * z * 1j
     return v
 
 
-- 
2.43.0


From 24e17c89ae250e723bfa878641704cfc019cbfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 78/85] fix: mspaint launcher opens the file named on its
 command line

---
 mspaint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mspaint.py b/mspaint.py
index 38eb893..4c33b6e 100755
--- a/mspaint.py
+++ b/mspaint.py
@@ -75,7 +75,7 @@ def is_in_pytest():
     )
 
 
-file: Path = determine_file(argv)
+file: Path = determine_file(*argv)
 print(file)
 is_windows: bool = platform == "win32"
 is_android: bool
-- 
2.43.0


From b312f0dce91cc5b0d9f8f8c94fd97cc91d637707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 79/85] fix: mspaint launcher starts where the Android toolbox
 is absent

---
 mspaint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mspaint.py b/mspaint.py
index 4c33b6e..c20eb23 100755
--- a/mspaint.py
+++ b/mspaint.py
@@ -86,7 +86,7 @@ try:
         ).strip()
         == "Android"
     )
-except (CalledProcessError, FileNotFoundException):
+except (CalledProcessError, FileNotFoundError):
     is_android = False
 if is_windows:
     print(
-- 
2.43.0


From 422bfb9ddbf074913b8e34dea94f92599bc48b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 80/85] fix: save color cycles to a directory given by its
 whole path

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 3e9584b..dfbabeb 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -13565,7 +13565,7 @@ def _usefndirsv(
         if not overwritedir:
             raise FileExistsError(sysmsg['direxist'])
     for (i, bmp) in enumerate(func(obmp)):
-        NewBMPfile = f'{cwd}/{NewDir}/{i}.bmp'
+        NewBMPfile = str(Path(cwd, NewDir, f'{i}.bmp'))
         saveBMP(NewBMPfile, bmp)
         print(sysmsg['savefunc'] %
         (func.__name__ ,
-- 
2.43.0


From 50e52fa345e51df3875e1c5522d336eae89a54cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 81/85] fix: color cycle of an image without a cyclable palette
 says so and makes no directory

---
 pythonbmp/BITMAPlib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index dfbabeb..348db22 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -13559,12 +13559,15 @@ def _usefndirsv(
     """
     obmp = loadBMP(ExistingBMPfile)
     cwd = getcwd()
+    bmps = func(obmp)
+    if bmps is None:
+        return
     try:
         mkdir(NewDir)
     except FileExistsError:
         if not overwritedir:
             raise FileExistsError(sysmsg['direxist'])
-    for (i, bmp) in enumerate(func(obmp)):
+    for (i, bmp) in enumerate(bmps):
         NewBMPfile = str(Path(cwd, NewDir, f'{i}.bmp'))
         saveBMP(NewBMPfile, bmp)
         print(sysmsg['savefunc'] %
-- 
2.43.0


From 4c6ac72433cce08e0b266979b116a48a60b3e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 82/85] fix: arc of radius zero is its center instead of a
 division by zero

---
 pythonbmp/primitives2D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 5395cdf..109ee96 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -630,6 +630,8 @@ def arcvert(x: int, y: int, r: int,
     v = []
     tol = 0.03
     c = (x, y)
+    if r == 0: #all of it is its center
+        return [c]
     sa = radians(startdegangle)
     ea = radians(enddegangle)
     missing = {sa, ea} if ea > sa else set()
-- 
2.43.0


From 61445a3870f07a791d88bc967374e83282fb969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 83/85] fix: guarded functions and file functions take their
 parameters by name too

---
 pythonbmp/fileutils.py   |  3 +++
 pythonbmp/paramchecks.py | 30 ++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/pythonbmp/fileutils.py b/pythonbmp/fileutils.py
index 38815df..79cff4b 100644
--- a/pythonbmp/fileutils.py
+++ b/pythonbmp/fileutils.py
@@ -20,6 +20,7 @@
 from os.path import isfile
 from typing import Callable
 from .messages import sysmsg
+from .paramchecks import byposition
 from functools import wraps
 
 
@@ -36,6 +37,7 @@ def checklink(func: Callable):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         if isfile(args[0]):
             return(func(*args, **kwargs))
         else:
@@ -56,6 +58,7 @@ def checklinks(func: Callable):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         if isfile(args[0]) and \
            isfile(args[1]):
             return(func(*args, **kwargs))
diff --git a/pythonbmp/paramchecks.py b/pythonbmp/paramchecks.py
index 18d8adc..309d4c4 100644
--- a/pythonbmp/paramchecks.py
+++ b/pythonbmp/paramchecks.py
@@ -15,6 +15,7 @@ Function decorators for parameter check
 """
 
 from functools import wraps
+from inspect import signature
 from .messages import sysmsg
 from .bmpconstants import(
     bmpcolorbits, bmpx, bmpy)
@@ -30,6 +31,24 @@ f = lambda bmp, x, y: (x < readint(bmpx,4,bmp) and \
                       (x > -1 and y > -1)
 
 
+def byposition(func, args, kwargs):
+    """Puts the parameters of a call
+        in the order func declares
+        them, named ones included
+
+    Args:
+        func        : function called
+        args, kwargs: its parameters
+
+    Returns:
+        (args, kwargs)
+    """
+    if kwargs:
+        b = signature(func).bind(*args, **kwargs)
+        args, kwargs = b.args, b.kwargs
+    return args, kwargs
+
+
 def intcircleparam(func):
     """Decorator to test if the
         2nd, 3rd, 4th parameters
@@ -44,6 +63,7 @@ def intcircleparam(func):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         if (type(args[1]) == int and \
             type(args[2]) == int) and \
             type(args[3]) == int:
@@ -69,6 +89,7 @@ def intcircleparam24bitonly(func):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         if args[0][bmpcolorbits] != 24:
             print(sysmsg['not24bit'])
         elif (type(args[1]) == int and \
@@ -94,6 +115,7 @@ def func24bitonly(func):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         if args[0][bmpcolorbits] != 24:
             print(sysmsg['not24bit'])
         else:
@@ -120,6 +142,7 @@ def func24bitonlyandentirerectinboundary(func):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         bmp = args[0]
         x1 = args[1]
         y1 = args[2]
@@ -158,6 +181,7 @@ def func24bitonlyandentirecircleinboundary(func):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         bmp = args[0]
         x = args[1]
         y = args[2]
@@ -196,6 +220,7 @@ def func8and24bitonlyandentirecircleinboundary(func):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         bmp = args[0]
         x = args[1]
         y = args[2]
@@ -229,6 +254,7 @@ def func8and24bitonly(func):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         if args[0][bmpcolorbits] not in [24, 8]:
             print(sysmsg['not24or8bit'])
         else:
@@ -250,6 +276,7 @@ def func4and8bitonly(func):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         if args[0][bmpcolorbits] not in [4, 8]:
             print(sysmsg['not4or8bit'])
         else:
@@ -277,6 +304,7 @@ def func8and24bitonlyandentirerectinboundary(func):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         bmp = args[0]
         x1 = args[1]
         y1 = args[2]
@@ -312,6 +340,7 @@ def entirerectinboundary(func):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         bmp = args[0]
         x1 = args[1]
         y1 = args[2]
@@ -344,6 +373,7 @@ def entirecircleinboundary(func):
     """
     @wraps(func)
     def callf(*args, **kwargs):
+        args, kwargs = byposition(func, args, kwargs)
         bmp = args[0]
         x = args[1]
         y = args[2]
-- 
2.43.0


From 487c26b351c0f29f40212b946a93a9ae25866470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 84/85] fix: leave no holes in filled arcs of more than 180
 degrees

---
 pythonbmp/BITMAPlib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 348db22..3c0d641 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3911,8 +3911,9 @@ def drawarc(bmp: array,
         avs = [av]
         if enddegangle - startdegangle > 180: #not convex
             mid = (startdegangle + enddegangle) / 2
-            avs = [arcvert(x, y, r, startdegangle, mid),
-                   arcvert(x, y, r, mid, enddegangle)]
+            avs = [arcvert(x, y, r, a, a + 180)
+                   for a in (startdegangle, mid - 90,
+                             enddegangle - 180)]
         for av in avs:
             fillboundary(bmp,
                 fillpolydata(av,
-- 
2.43.0


From b40a375462ac47b50ed7fc83b73810dff2a1e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 85/85] fix: copied selections keep widths, heights and row
 sizes past 65535

copyrect stored the width, the height and the bytes of a row in two bytes
each, so pasterect and convertselection2BMP lost selections wider or taller
than 65536 pixels, or with rows of more than 65535 bytes.
---
 pythonbmp/BITMAPlib.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 3c0d641..3965ec0 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7721,15 +7721,15 @@ def copyrect(bmp: array,
     retval = array('B', [bmp[bmpcolorbits]])
     x1, y1, x2, y2 = \
        sortrecpoints(x1, y1, x2, y2)
-    retval += int2buf(2, x2 - x1)
-    retval += int2buf(2, y2 - y1)
+    retval += int2buf(4, x2 - x1)
+    retval += int2buf(4, y2 - y1)
     if bmp[bmpcolorbits] < 8:
-        retval += int2buf(2, x2 - x1 + 1)
+        retval += int2buf(4, x2 - x1 + 1)
         for y in range(y2, y1 - 1, -1):
             for x in range(x1, x2 + 1):
                 retval.append(getxybit(bmp, x, y))
         return retval
-    retval += int2buf(2,
+    retval += int2buf(4,
                 adjustxbufsize(bmp, x1, x2))
     for buf in itercopyrect(
                     bmp, x1, y1, x2, y2):
@@ -7755,15 +7755,15 @@ def pasterect(bmp: array, buf: array,
     if bmp[bmpcolorbits] != buf[0]:
         print(sysmsg['bitsnotequal'])
     else:
-        x2 = x1 + buf2int(buf[1: 3])
-        y2 = y1 + buf2int(buf[3: 5])
+        x2 = x1 + buf2int(buf[1: 5])
+        y2 = y1 + buf2int(buf[5: 9])
         r = _xchrcnt(bmp)
         if listinBMPrecbnd(bmp, ((x1, y1),
                                 (x2, y2))):
             offset = _BMoffset(bmp, x1, y2)
-            br = buf2int(buf[5: 7])
-            startoff = 7
-            endoff = br + 7
+            br = buf2int(buf[9: 13])
+            startoff = 13
+            endoff = br + 13
             bufsize = len(buf)
             while startoff < bufsize:
                 if bmp[bmpcolorbits] < 8:
@@ -7797,8 +7797,8 @@ def convertselection2BMP(buf: array):
         print (sysmsg['invalidbuf'])
     else:
         bmp = newBMP(
-                buf2int(buf[1: 3]) + 1,
-                buf2int(buf[3: 5]) + 1,
+                buf2int(buf[1: 5]) + 1,
+                buf2int(buf[5: 9]) + 1,
                 bits)
         pasterect(bmp, buf, 0, 0)
     return bmp
-- 
2.43.0

