From 351cceee0ad1102a701259d8eed73181a3b819a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 001/115] fix: refuse an invalid reference layer before the
 canvas is modified

A layer request with an unknown reference, or with the layer itself as
reference, raised an exception after the layer had been taken out of the
canvas (or registered without being inserted), so its content was lost.
---
 pyx/canvas.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 3bd4fb9..6b302ca 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -300,6 +300,10 @@ class canvas(baseclasses.canvasitem):
         try:
             group, layer = name.split(".", 1)
         except ValueError:
+            # refuse an invalid reference before anything is modified
+            reference = above if above is not None else below
+            if reference is not None and (reference == name or reference not in self.layers):
+                raise ValueError("invalid reference layer '%s' to position layer '%s'" % (reference, name))
             if name in self.layers:
                 if above is not None or below is not None:
                     # remove for repositioning
@@ -318,15 +322,18 @@ class canvas(baseclasses.canvasitem):
 
             return self.layers[name]
         else:
-            if not group in self.layers:
-                self.layers[group] = self.insert(canvas(textengine=self.textengine))
             if above is not None:
                 abovegroup, above = above.split(".", 1)
                 assert abovegroup == group
             if below is not None:
                 belowgroup, below = below.split(".", 1)
                 assert belowgroup == group
-            return self.layers[group].layer(layer, above=above, below=below)
+            if group in self.layers:
+                return self.layers[group].layer(layer, above=above, below=below)
+            groupcanvas = canvas(textengine=self.textengine)
+            newlayer = groupcanvas.layer(layer, above=above, below=below)
+            self.layers[group] = self.insert(groupcanvas)
+            return newlayer
 
     def insert(self, item, attrs=None):
         """insert item in the canvas.
-- 
2.43.0


From 336026785a2806c0ed526ed1e43fc77f4eb03c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 002/115] fix: honour the fill rule given in the attributes of
 deco.filled in PS and PDF

The fill rule was stored in a temporary context, while the outer one
decided between the nonzero winding and the even-odd operators.
---
 pyx/deco.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 8586b44..23b956f 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -147,10 +147,11 @@ class decoratedpath(baseclasses.canvasitem):
                 # do efficient stroking + filling if respective paths are identical
                 file.write("gsave\n")
 
+                acontext = context()
                 if self.fillstyles:
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -169,11 +170,12 @@ class decoratedpath(baseclasses.canvasitem):
                     file.write("grestore\n")
             else:
                 # only fill fillpath - for the moment
+                acontext = context()
                 if self.fillstyles:
                     file.write("gsave\n")
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -247,7 +249,7 @@ class decoratedpath(baseclasses.canvasitem):
                 if self.strokestyles:
                     _writestrokestyles(self.strokestyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("B*\n")
                 else:
                     file.write("B\n") # both stroke and fill
@@ -257,11 +259,12 @@ class decoratedpath(baseclasses.canvasitem):
                 file.write("Q\n") # grestore
             else:
                 # only fill fillpath - for the moment
+                acontext = context()
                 if self.fillstyles:
                     file.write("q\n") # gsave
-                    _writefillstyles(self.fillstyles, context(), registry)
+                    _writefillstyles(self.fillstyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("f*\n")
                 else:
                     file.write("f\n") # fill
-- 
2.43.0


From c4eabbb3f6e8d76c918aa48cae5996199457a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 003/115] fix: do not write graphics state operators within a
 PDF path object

Between the construction of a path and its painting operator no other
operators are allowed in PDF; write the path after the fill attributes.
---
 pyx/deco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 23b956f..165c9bb 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -237,8 +237,6 @@ class decoratedpath(baseclasses.canvasitem):
             _writestyles(self.styles, context, registry)
 
         if self.fillstyles is not None:
-            fillpath.outputPDF(file, writer)
-
             if self.strokestyles is not None and strokepath is fillpath:
                 # do efficient stroking + filling
                 file.write("q\n") # gsave
@@ -249,6 +247,7 @@ class decoratedpath(baseclasses.canvasitem):
                 if self.strokestyles:
                     _writestrokestyles(self.strokestyles, acontext, registry)
 
+                fillpath.outputPDF(file, writer)
                 if acontext.fillrule:
                     file.write("B*\n")
                 else:
@@ -264,6 +263,7 @@ class decoratedpath(baseclasses.canvasitem):
                     file.write("q\n") # gsave
                     _writefillstyles(self.fillstyles, acontext, registry)
 
+                fillpath.outputPDF(file, writer)
                 if acontext.fillrule:
                     file.write("f*\n")
                 else:
-- 
2.43.0


From 2e1161c2986323742685547d5f350e94c78ce030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 004/115] fix: SVG output fills a path before stroking it and
 keeps the two opacities apart

PostScript and PDF fill first, while the SVG output stroked first whenever two
path elements were written; the stroke opacity was kept for an opaque fill.
---
 pyx/deco.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 165c9bb..081cd29 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -321,15 +321,6 @@ class decoratedpath(baseclasses.canvasitem):
             xml.startSVGElement("g", gattrs)
 
         if strokepath is not fillpath:
-            if self.strokestyles is not None:
-                attrs = {"d": strokepath.returnSVGdata()}
-                _writestrokestyles(attrs, acontext)
-                attrs["stroke"] = acontext.strokecolor
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
             if self.fillstyles is not None:
                 attrs = {"d": fillpath.returnSVGdata()}
                 _writefillstyles(attrs, acontext)
@@ -339,6 +330,15 @@ class decoratedpath(baseclasses.canvasitem):
                 xml.startSVGElement("path", attrs)
                 xml.endSVGElement("path")
                 bbox += fillpath.bbox()
+            if self.strokestyles is not None:
+                attrs = {"d": strokepath.returnSVGdata()}
+                _writestrokestyles(attrs, acontext)
+                attrs["stroke"] = acontext.strokecolor
+                if acontext.strokeopacity != 1:
+                    attrs["opacity"] = "%f" % acontext.strokeopacity
+                xml.startSVGElement("path", attrs)
+                xml.endSVGElement("path")
+                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
         else:
             attrs = {"d": fillpath.returnSVGdata()}
             _writestrokestyles(attrs, acontext)
@@ -348,16 +348,17 @@ class decoratedpath(baseclasses.canvasitem):
             if self.fillstyles is not None:
                 attrs["fill"] = acontext.fillcolor
             if acontext.strokeopacity != acontext.fillopacity and self.strokestyles is not None and self.fillstyles is not None:
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                attrs["stroke"] = acontext.strokecolor
-                attrs["fill"] = "none"
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                if acontext.fillopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.fillopacity
                 attrs["stroke"] = "none"
                 attrs["fill"] = acontext.fillcolor
+                if acontext.fillopacity != 1:
+                    attrs["opacity"] = "%f" % acontext.fillopacity
+                xml.startSVGElement("path", attrs)
+                xml.endSVGElement("path")
+                attrs.pop("opacity", None)
+                attrs["stroke"] = acontext.strokecolor
+                attrs["fill"] = "none"
+                if acontext.strokeopacity != 1:
+                    attrs["opacity"] = "%f" % acontext.strokeopacity
                 xml.startSVGElement("path", attrs)
                 xml.endSVGElement("path")
             else:
-- 
2.43.0


From d266571ac6a0464c8513692144e150e6aa1ec3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 005/115] fix: stroke and fill attributes of a path do not leak
 into its ornaments in SVG

---
 pyx/deco.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 081cd29..12297d4 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -320,6 +320,10 @@ class decoratedpath(baseclasses.canvasitem):
         if gattrs:
             xml.startSVGElement("g", gattrs)
 
+        # stroke and fill styles must not affect the ornaments
+        ornamentscontext = acontext
+        acontext = acontext()
+
         if strokepath is not fillpath:
             if self.fillstyles is not None:
                 attrs = {"d": fillpath.returnSVGdata()}
@@ -373,7 +377,7 @@ class decoratedpath(baseclasses.canvasitem):
             else:
                 bbox += strokepath.bbox()
 
-        self.ornaments.processSVG(xml, writer, acontext, registry, bbox)
+        self.ornaments.processSVG(xml, writer, ornamentscontext, registry, bbox)
 
         if gattrs:
             xml.endSVGElement("g")
-- 
2.43.0


From e61f3fff0bcddd45a1342454eba27d1824484b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 006/115] fix: the intersection of two disjoint bounding boxes
 is empty

It was a box with exchanged corners, which a following union turned into a
box covering the gap between the operands.
---
 pyx/bbox.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/bbox.py b/pyx/bbox.py
index 70562fd..3f8c9b4 100644
--- a/pyx/bbox.py
+++ b/pyx/bbox.py
@@ -75,7 +75,7 @@ class bbox_pt:
 
     def __mul__(self, other):
         """return intersection of two bboxes"""
-        if self.llx_pt is not None and other.llx_pt is not None:
+        if self.intersects(other):
             return bbox_pt(max(self.llx_pt, other.llx_pt), max(self.lly_pt, other.lly_pt),
                            min(self.urx_pt, other.urx_pt), min(self.ury_pt, other.ury_pt))
         else:
@@ -83,12 +83,12 @@ class bbox_pt:
 
     def __imul__(self, other):
         """intersect two bboxes in place"""
-        if self.llx_pt is not None and other.llx_pt is not None:
+        if self.intersects(other):
             self.llx_pt = max(self.llx_pt, other.llx_pt)
             self.lly_pt = max(self.lly_pt, other.lly_pt)
             self.urx_pt = min(self.urx_pt, other.urx_pt)
             self.ury_pt = min(self.ury_pt, other.ury_pt)
-        elif other.llx_pt is None:
+        else:
             self.llx_pt = None
         return self
 
-- 
2.43.0


From afeb35bdc10873064080cf9fd1a71bcbabe07746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 007/115] fix: a page without content can be written to PDF

---
 pyx/pdfwriter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 88194f9..72f2f61 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -290,8 +290,11 @@ class PDFpage(PDFobject):
         paperformat = self.page.paperformat
         if paperformat:
             file.write("/MediaBox [0 0 %f %f]\n" % (unit.topt(paperformat.width), unit.topt(paperformat.height)))
-        else:
+        elif self.pdfcontent.bbox:
             file.write("/MediaBox [%f %f %f %f]\n" % self.pdfcontent.bbox.highrestuple_pt())
+        else:
+            # a page without any content, but the entry is required
+            file.write("/MediaBox [0 0 0 0]\n")
         if self.pdfcontent.bbox and writer.writebbox:
             file.write("/CropBox [%f %f %f %f]\n" % self.pdfcontent.bbox.highrestuple_pt())
         if self.page.rotated:
-- 
2.43.0


From 3cda7711cde8ad93291a06b8a65b2416c3c6c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 008/115] fix: mirror at the line with the given direction

The matrix was that of the mirroring at the line with the direction -angle.
---
 pyx/trafo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index 60223a4..e0615c9 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -42,8 +42,8 @@ def _mmatrix(angle):
     phi = math.pi*angle/180.0
 
     return ( (math.cos(phi)*math.cos(phi)-math.sin(phi)*math.sin(phi),
-              -2*math.sin(phi)*math.cos(phi)                ),
-             (-2*math.sin(phi)*math.cos(phi),
+               2*math.sin(phi)*math.cos(phi)                ),
+             ( 2*math.sin(phi)*math.cos(phi),
               math.sin(phi)*math.sin(phi)-math.cos(phi)*math.cos(phi) ) )
 
 
-- 
2.43.0


From c09c0b411da3c09e43c35ec98cd8b5cf56fbc40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 009/115] fix: slant in the given direction and around the
 given point

The center of the slant was without effect on the shear itself, was taken for
points where lengths are expected, and the direction was mirrored.  Missing
coordinates of a center raised a NameError.
---
 pyx/trafo.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index e0615c9..c3dd953 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -47,6 +47,8 @@ def _mmatrix(angle):
               math.sin(phi)*math.sin(phi)-math.cos(phi)*math.cos(phi) ) )
 
 
+class TrafoException(Exception): pass
+
 # trafo: affine transformations
 
 class trafo_pt(baseclasses.deformer):
@@ -228,18 +230,23 @@ class scale(trafo):
 
 class slant_pt(trafo_pt):
     def __init__(self, a, angle=0, x=None, y=None):
-        t = ( rotate_pt(-angle, x, y) *
-              trafo(matrix=((1, a), (0, 1))) *
-              rotate_pt(angle, x, y) )
+        t = ( rotate_pt(angle) *
+              trafo_pt(matrix=((1, a), (0, 1))) *
+              rotate_pt(-angle) )
+        if x is not None or y is not None:
+            if x is None or y is None:
+                raise TrafoException("either specify both x and y or none of them")
+            t = translate_pt(x, y) * t * translate_pt(-x, -y)
         trafo_pt.__init__(self, t.matrix, t.vector)
 
 
-class slant(trafo):
+class slant(slant_pt):
     def __init__(self, a, angle=0, x=None, y=None):
-        t = ( rotate(-angle, x, y) *
-              trafo(matrix=((1, a), (0, 1))) *
-              rotate(angle, x, y) )
-        trafo.__init__(self, t.matrix, t.vector)
+        if x is not None or y is not None:
+            if x is None or y is None:
+                raise TrafoException("either specify both x and y or none of them")
+            x, y = unit.topt(x), unit.topt(y)
+        slant_pt.__init__(self, a, angle, x, y)
 
 
 class translate_pt(trafo_pt):
-- 
2.43.0


From 9d88aa406000b6696e991d0aeb85a518c67055e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 010/115] fix: keep track of the current point after arcs and
 closepath in SVG paths

---
 pyx/path.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 063a557..bf1289c 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -312,6 +312,8 @@ class closepath(pathitem):
         file.write("closepath\n")
 
     def returnSVGdata(self, inverse_y, first, context):
+        context.x_pt = context.subfirstx_pt
+        context.y_pt = context.subfirsty_pt
         return "Z"
 
 
@@ -681,8 +683,8 @@ class arc_pt(pathitem):
                 y_pt = -y_pt
             data.append("A%g %g 0 %s 0 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
 
-        context.x_pt = x_pt
-        context.y_pt = y_pt
+        # the context is not inverted
+        context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
 
 
@@ -778,8 +780,8 @@ class arcn_pt(pathitem):
                 y_pt = -y_pt
             data.append("A%g %g 0 %s 1 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
 
-        context.x_pt = x_pt
-        context.y_pt = y_pt
+        # the context is not inverted
+        context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
 
 
-- 
2.43.0


From 6b5037a1bdaed5afd780eea8cb2a08e54f78fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 011/115] fix: arcs over a multiple of full turns are the same
 in all output formats

---
 pyx/path.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index bf1289c..175b87a 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -93,14 +93,15 @@ def _arctobcurve(x_pt, y_pt, r_pt, phi1, phi2):
 def _arctobezierpath(x_pt, y_pt, r_pt, phi1, phi2, dphimax=45):
     apath = []
 
+    if phi2<phi1:
+        # guarantee that phi2>=phi1 ... (equality for full turns as in PS)
+        phi2 = phi2 + math.ceil((phi1-phi2)/360)*360
+
     phi1 = radians(phi1)
     phi2 = radians(phi2)
     dphimax = radians(dphimax)
 
-    if phi2<phi1:
-        # guarantee that phi2>phi1 ...
-        phi2 = phi2 + (math.floor((phi1-phi2)/(2*pi))+1)*2*pi
-    elif phi2>phi1+2*pi:
+    if phi2>phi1+2*pi:
         # ... or remove unnecessary multiples of 2*pi
         phi2 = phi2 - (math.floor((phi2-phi1)/(2*pi))-1)*2*pi
 
@@ -120,6 +121,10 @@ def _arcpoint(x_pt, y_pt, r_pt, angle):
     return x_pt+r_pt*cos(radians(angle)), y_pt+r_pt*sin(radians(angle))
 
 def _arcbboxdata(x_pt, y_pt, r_pt, angle1, angle2):
+    if angle2 < angle1:
+        # guarantee that angle2>=angle1
+        angle2 = angle2 + math.ceil((angle1-angle2)/360)*360
+
     phi1 = radians(angle1)
     phi2 = radians(angle2)
 
@@ -132,10 +137,6 @@ def _arcbboxdata(x_pt, y_pt, r_pt, angle1, angle2):
     # in the interval [phi1, phi2]. These can either be located
     # on the borders of this interval or in the interior.
 
-    if phi2 < phi1:
-        # guarantee that phi2>phi1
-        phi2 = phi2 + (math.floor((phi1-phi2)/(2*pi))+1)*2*pi
-
     # next minimum of cos(phi) looking from phi1 in counterclockwise
     # direction: 2*pi*floor((phi1-pi)/(2*pi)) + 3*pi
 
@@ -666,9 +667,9 @@ class arc_pt(pathitem):
         angle1 = self.angle1
         angle2 = self.angle2
 
-        # make 0 < angle2-angle1 < 2*360
+        # make 0 <= angle2-angle1 < 2*360
         if angle2 < angle1:
-            angle2 += (math.floor((angle1-angle2)/360)+1)*360
+            angle2 += math.ceil((angle1-angle2)/360)*360
         elif angle2 > angle1 + 360:
             angle2 -= (math.floor((angle2-angle1)/360)-1)*360
         # svg arcs become unstable when close to 360 degree and cannot
@@ -763,9 +764,9 @@ class arcn_pt(pathitem):
         angle1 = self.angle1
         angle2 = self.angle2
 
-        # make 0 < angle1-angle2 < 2*360
+        # make 0 <= angle1-angle2 < 2*360
         if angle1 < angle2:
-            angle1 += (math.floor((angle2-angle1)/360)+1)*360
+            angle1 += math.ceil((angle2-angle1)/360)*360
         elif angle1 > angle2 + 360:
             angle1 -= (math.floor((angle1-angle2)/360)-1)*360
         # svg arcs become unstable when close to 360 degree and cannot
-- 
2.43.0


From 5534d72dedaca25bd3c5374fffbc5ff5bc57cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 012/115] fix: tangent arcs with antiparallel tangents are a
 straight line

---
 pyx/path.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyx/path.py b/pyx/path.py
index 175b87a..733a636 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -816,11 +816,17 @@ class arct_pt(pathitem):
         # direction of tangent 1
         dx1_pt, dy1_pt = self.x1_pt-x_pt, self.y1_pt-y_pt
         l1_pt = math.hypot(dx1_pt, dy1_pt)
-        dx1, dy1 = dx1_pt/l1_pt, dy1_pt/l1_pt
 
         # direction of tangent 2
         dx2_pt, dy2_pt = self.x2_pt-self.x1_pt, self.y2_pt-self.y1_pt
         l2_pt = math.hypot(dx2_pt, dy2_pt)
+
+        # parallel or antiparallel tangents (and tangents without direction)
+        # are the degenerate case as well
+        if abs(dx1_pt*dy2_pt-dy1_pt*dx2_pt) <= 1e-10*l1_pt*l2_pt:
+            return [lineto_pt(self.x1_pt, self.y1_pt)]
+
+        dx1, dy1 = dx1_pt/l1_pt, dy1_pt/l1_pt
         dx2, dy2 = dx2_pt/l2_pt, dy2_pt/l2_pt
 
         # intersection angle between two tangents in the range (-pi, pi).
-- 
2.43.0


From c8067dedbd98535456e584af6006e53342c6f5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:53 +0000
Subject: [PATCH 013/115] fix: copy rationals exactly

---
 pyx/graph/axis/tick.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index 29000a6..15a1a87 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -116,6 +116,9 @@ class rational:
             self.num = 1
             self.denom = 1
             return
+        if isinstance(x, rational):
+            # copy exactly (note that a rational behaves like a number, too)
+            x = x.num, x.denom
         try:
             # does x behave like a number
             x + 0
-- 
2.43.0


From 1ba2d5bb1668337ff4e3bd21cd27bd20f3052cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 014/115] fix: rationals compare by their value whatever the
 sign of the denominator

---
 pyx/graph/axis/tick.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index 15a1a87..871a773 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -144,7 +144,6 @@ class rational:
         else:
             # x is a number
             self.initfromfloat(x, floatprecision)
-        if not self.denom: raise ZeroDivisionError("zero denominator")
         if power == -1:
             self.num, self.denom = self.denom, self.num
         elif power < -1:
@@ -159,6 +158,13 @@ class rational:
             else:
                 self.num = int(self.num) ** power
                 self.denom = int(self.denom) ** power
+        self._checkdenom()
+
+    def _checkdenom(self):
+        # comparisons rely on a positive denominator
+        if not self.denom: raise ZeroDivisionError("zero denominator")
+        if self.denom < 0:
+            self.num, self.denom = -self.num, -self.denom
 
     def __lt__(self, other):
         try:
@@ -195,6 +201,7 @@ class rational:
     def __idiv__(self, other):
         self.num *= other.denom
         self.denom *= other.num
+        self._checkdenom()
         return self
 
     __itruediv__ = __idiv__
-- 
2.43.0


From 304f2c0c0ff4178e76a0bfb821e1138247eeb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 015/115] fix: extend the requested end of a negative
 logarithmic range

---
 pyx/graph/axis/parter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/graph/axis/parter.py b/pyx/graph/axis/parter.py
index 08f123e..2812e35 100644
--- a/pyx/graph/axis/parter.py
+++ b/pyx/graph/axis/parter.py
@@ -234,6 +234,7 @@ class logarithmic(linear):
         neglog = max < 0
         if neglog:
             min, max = -max, -min
+            extendmin, extendmax = extendmax, extendmin
         minpower = None
         maxpower = None
         for i in range(len(preexp.pres)):
-- 
2.43.0


From fd868c7dd4a97cc5e24cfcd62435e2e505f677c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 016/115] fix: do not modify the manual ticks of an axis while
 it is laid out

---
 pyx/graph/axis/axis.py     | 7 ++++---
 pyx/graph/axis/timeaxis.py | 5 +++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 496275a..71e52d7 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -21,7 +21,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import functools, logging, math
+import copy, functools, logging, math
 from pyx import attr, unit, text, utils
 from pyx.graph.axis import painter, parter, positioner, rater, texter, tick
 
@@ -150,7 +150,7 @@ class _regularaxis(_axis):
             return canvas
 
         if parter is None:
-            data.ticks = self.manualticks
+            data.ticks = [copy.copy(t) for t in self.manualticks]
             return layout(data)
 
         # a variant is a data copy with local modifications to test several partitions
@@ -196,7 +196,8 @@ class _regularaxis(_axis):
                 ticks = partfunction()
                 if ticks is None:
                     break
-                ticks = tick.mergeticklists(self.manualticks, ticks, mergeequal=0)
+                # the layout modifies the ticks, hence each variant needs its own copies of the manual ticks
+                ticks = tick.mergeticklists([copy.copy(t) for t in self.manualticks], ticks, mergeequal=0)
                 if ticks:
                     rate = rater.rateticks(self, ticks)
                     if rate is not None:
diff --git a/pyx/graph/axis/timeaxis.py b/pyx/graph/axis/timeaxis.py
index eb27716..aaf3638 100644
--- a/pyx/graph/axis/timeaxis.py
+++ b/pyx/graph/axis/timeaxis.py
@@ -66,6 +66,11 @@ class timetick(datetime.datetime):
         self.label = label
         self.labelattrs = labelattrs[:]
 
+    def __copy__(self):
+        return timetick(self.year, self.month, self.day, hour=self.hour, minute=self.minute, second=self.second,
+                        microsecond=self.microsecond, tzinfo=self.tzinfo,
+                        ticklevel=self.ticklevel, labellevel=self.labellevel, label=self.label, labelattrs=self.labelattrs)
+
     def merge(self, other):
         if self.ticklevel is None or (other.ticklevel is not None and other.ticklevel < self.ticklevel):
             self.ticklevel = other.ticklevel
-- 
2.43.0


From 71e4a5987ad38313e1c839abc048bc4abe52ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 017/115] fix: grid paths of flipped and of vertical
 one-dimensional graphs

---
 pyx/graph/graph.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index c337591..65ef4b5 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -408,18 +408,23 @@ class graphxy(graph):
                 self.axesnames[1].append(axisname)
             aaxis.setcreatecall(self.doaxiscreate, axisname)
 
+        # the vertical grid lines belong to the y-axes in a flipped graph
+        if self.flipped:
+            vgridpath, hgridpath = self.yvgridpath, self.xvgridpath
+        else:
+            vgridpath, hgridpath = self.xvgridpath, self.yvgridpath
         self.axespositioners = dict(x=positioner.lineaxispos_pt(self.xpos_pt, self.ypos_pt,
                                                                 self.xpos_pt + self.width_pt, self.ypos_pt,
-                                                                (0, 1), self.xvgridpath),
+                                                                (0, 1), vgridpath),
                                     x2=positioner.lineaxispos_pt(self.xpos_pt, self.ypos_pt + self.height_pt,
                                                                  self.xpos_pt + self.width_pt, self.ypos_pt + self.height_pt,
-                                                                 (0, -1), self.xvgridpath),
+                                                                 (0, -1), vgridpath),
                                     y=positioner.lineaxispos_pt(self.xpos_pt, self.ypos_pt,
                                                                 self.xpos_pt, self.ypos_pt + self.height_pt,
-                                                                (1, 0), self.yvgridpath),
+                                                                (1, 0), hgridpath),
                                     y2=positioner.lineaxispos_pt(self.xpos_pt + self.width_pt, self.ypos_pt,
                                                                  self.xpos_pt + self.width_pt, self.ypos_pt + self.height_pt,
-                                                                 (-1, 0), self.yvgridpath))
+                                                                 (-1, 0), hgridpath))
         if self.flipped:
             self.axespositioners = dict(x=self.axespositioners["y2"],
                                         y2=self.axespositioners["x2"],
@@ -506,12 +511,10 @@ class graphxy(graph):
             raise ValueError("direction invalid")
 
     def xvgridpath(self, vx):
-        return path.line_pt(self.xpos_pt + vx*self.width_pt, self.ypos_pt,
-                            self.xpos_pt + vx*self.width_pt, self.ypos_pt + self.height_pt)
+        return path.line_pt(*(graphxy.vpos_pt(self, vx, 0) + graphxy.vpos_pt(self, vx, 1)))
 
     def yvgridpath(self, vy):
-        return path.line_pt(self.xpos_pt, self.ypos_pt + vy*self.height_pt,
-                            self.xpos_pt + self.width_pt, self.ypos_pt + vy*self.height_pt)
+        return path.line_pt(*(graphxy.vpos_pt(self, 0, vy) + graphxy.vpos_pt(self, 1, vy)))
 
     def autokeygraphattrs(self):
         return dict(direction="vertical", length=self.height)
@@ -568,16 +571,20 @@ class graphxy(graph):
             sign = 2*(int(axisname[1:]) % 2) - 1
             if axisname[0] == "x" and self.flipped:
                 sign = -sign
+            if axisname[0] == "x":
+                vgridpath = self.xvgridpath
+            else:
+                vgridpath = self.yvgridpath
             if axisname[0] == "x" and not self.flipped or axisname[0] == "y" and self.flipped:
                 y_pt = self.axes[dependsonaxisname].positioner.y1_pt - sign * (self.axes[dependsonaxisname].canvas.extent_pt + self.axesdist_pt)
                 self.axes[axisname].setpositioner(positioner.lineaxispos_pt(self.xpos_pt, y_pt,
                                                                             self.xpos_pt + self.width_pt, y_pt,
-                                                                            (0, sign), self.xvgridpath))
+                                                                            (0, sign), vgridpath))
             else:
                 x_pt = self.axes[dependsonaxisname].positioner.x1_pt - sign * (self.axes[dependsonaxisname].canvas.extent_pt + self.axesdist_pt)
                 self.axes[axisname].setpositioner(positioner.lineaxispos_pt(x_pt, self.ypos_pt,
                                                                             x_pt, self.ypos_pt + self.height_pt,
-                                                                            (sign, 0), self.yvgridpath))
+                                                                            (sign, 0), vgridpath))
 
     def dolayout(self):
         if self.did(self.dolayout):
-- 
2.43.0


From 27df7e90d26111f231de51888835d5315d79ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 018/115] fix: tick points in graph coordinates and base paths
 of axes along a path

---
 pyx/graph/axis/axis.py       | 3 ++-
 pyx/graph/axis/positioner.py | 2 +-
 pyx/graph/graph.py           | 6 +++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 71e52d7..98f4c50 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -641,7 +641,8 @@ class anchoredaxis:
         return self.positioner.vtickpoint_pt(v)
 
     def vtickpoint(self, v):
-        return self.positioner.vtickpoint_pt(v) * unit.t_pt
+        x_pt, y_pt = self.positioner.vtickpoint_pt(v)
+        return x_pt * unit.t_pt, y_pt * unit.t_pt
 
     def tickpoint_pt(self, x):
         self.docreate()
diff --git a/pyx/graph/axis/positioner.py b/pyx/graph/axis/positioner.py
index 7396f5b..35996c6 100644
--- a/pyx/graph/axis/positioner.py
+++ b/pyx/graph/axis/positioner.py
@@ -67,7 +67,7 @@ class pathpositioner(_positioner):
             if v2 is None:
                 return self.normpath.split(self.normpath.arclentoparam(v1 * self.arclen))[1]
             else:
-                return self.normpath.split(*self.normpath.arclentoparam([v1 * self.arclen, v2 * self.arclen]))[1]
+                return self.normpath.split(self.normpath.arclentoparam([v1 * self.arclen, v2 * self.arclen]))[1]
 
     def vtickpoint_pt(self, v):
         return self.normpath.at_pt(self.normpath.arclentoparam(v * self.arclen))
diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 65ef4b5..3f07a45 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -382,7 +382,7 @@ class graphxy(graph):
             self.xtickpoint_pt = self.axes["x"].tickpoint_pt
             self.xtickpoint = self.axes["x"].tickpoint
             self.xvtickpoint_pt = self.axes["x"].vtickpoint_pt
-            self.xvtickpoint = self.axes["x"].tickpoint
+            self.xvtickpoint = self.axes["x"].vtickpoint
             self.xtickdirection = self.axes["x"].tickdirection
             self.xvtickdirection = self.axes["x"].vtickdirection
 
@@ -856,7 +856,7 @@ class graphxyz(graph):
             self.xtickpoint_pt = self.axes["x"].tickpoint_pt
             self.xtickpoint = self.axes["x"].tickpoint
             self.xvtickpoint_pt = self.axes["x"].vtickpoint_pt
-            self.xvtickpoint = self.axes["x"].tickpoint
+            self.xvtickpoint = self.axes["x"].vtickpoint
             self.xtickdirection = self.axes["x"].tickdirection
             self.xvtickdirection = self.axes["x"].vtickdirection
 
@@ -877,7 +877,7 @@ class graphxyz(graph):
             self.zgridpath = self.axes["z"].gridpath
             self.ztickpoint_pt = self.axes["z"].tickpoint_pt
             self.ztickpoint = self.axes["z"].tickpoint
-            self.zvtickpoint_pt = self.axes["z"].vtickpoint
+            self.zvtickpoint_pt = self.axes["z"].vtickpoint_pt
             self.zvtickpoint = self.axes["z"].vtickpoint
             self.ztickdirection = self.axes["z"].tickdirection
             self.zvtickdirection = self.axes["z"].vtickdirection
-- 
2.43.0


From cb9f6d2dd62205785077a397be1bb7aabaf40fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 019/115] fix: decimal texter starts the period at the right
 digit when thousandthpartsep is set

---
 pyx/graph/axis/texter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index c9ba480..ed87016 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -103,12 +103,14 @@ class decimal(_texter):
                 if remainder:
                     tick.label += self.decimalsep
                 oldremainders = []
+                digitstarts = []
                 tick.temp_decprecision = 0
                 while (remainder):
                     tick.temp_decprecision += 1
                     if remainder in oldremainders:
                         tick.temp_decprecision = None
-                        periodstart = len(tick.label) - (len(oldremainders) - oldremainders.index(remainder))
+                        # the first digit of the period might be preceded by separators
+                        periodstart = digitstarts[oldremainders.index(remainder)]
                         tick.label = tick.label[:periodstart] + self.period % tick.label[periodstart:]
                         break
                     oldremainders += [remainder]
@@ -116,6 +118,7 @@ class decimal(_texter):
                     quotient, remainder = divmod(remainder, n)
                     if not ((tick.temp_decprecision - 1) % 3) and tick.temp_decprecision > 1:
                         tick.label += self.thousandthpartsep
+                    digitstarts.append(len(tick.label))
                     tick.label += str(quotient)
                 else:
                     if maxdecprecision < tick.temp_decprecision:
-- 
2.43.0


From 31fbccf07dfa63e0f28cb8a8b0e64c915e70ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 020/115] fix: decimal texter groups the zeros filled in by
 equalprecision like all other digits

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index ed87016..79ab91e 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -129,7 +129,7 @@ class decimal(_texter):
                     if tick.temp_decprecision == 0 and maxdecprecision > 0:
                         tick.label += self.decimalsep
                     for i in range(tick.temp_decprecision, maxdecprecision):
-                        if not ((i - 1) % 3) and i > 1:
+                        if not (i % 3) and i > 0:
                             tick.label += self.thousandthpartsep
                         tick.label += "0"
         for tick in labeledticks:
-- 
2.43.0


From 3be8d65c3b4a0ef2de84d00ff64fd956521002da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 021/115] fix: rational texter with equaldenom ignores ticks
 which do not get a label

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 79ab91e..a634d11 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -399,7 +399,7 @@ class rational(_texter):
                 gcd = self.gcd(tick.temp_rationalnum, tick.temp_rationaldenom)
                 (tick.temp_rationalnum, dummy1), (tick.temp_rationaldenom, dummy2) = divmod(tick.temp_rationalnum, gcd), divmod(tick.temp_rationaldenom, gcd)
         if self.equaldenom:
-            equaldenom = self.lcm(*[tick.temp_rationaldenom for tick in ticks if tick.label is None])
+            equaldenom = self.lcm(*[tick.temp_rationaldenom for tick in labeledticks])
             if equaldenom is not None:
                 for tick in labeledticks:
                     factor, dummy = divmod(equaldenom, tick.temp_rationaldenom)
-- 
2.43.0


From 206ef978726519d647d442d44eccb1365aa9b7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 022/115] fix: rational texter keeps skipnum1 when called for
 modified parameters

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index a634d11..5fffd8a 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -348,7 +348,7 @@ class rational(_texter):
         return rational(**utils.merge_members_kwargs(self, [kwargs],
                                                     ["prefix", "infix", "suffix", "numprefix", "numinfix", "numsuffix",
                                                      "denomprefix", "denominfix", "denomsuffix", "plus", "minus", "minuspos",
-                                                     "over", "equaldenom", "skip1", "skipnum0", "skinum1", "skipdenom1", "labelattrs"]))
+                                                     "over", "equaldenom", "skip1", "skipnum0", "skipnum1", "skipdenom1", "labelattrs"]))
 
     def gcd(self, *n):
         """returns the greates common divisor of all elements in n
-- 
2.43.0


From c19be36f694cfc7497fcf49bb5959e7a439cd23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 023/115] fix: default texter uses the exponenttexter_*
 arguments

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 5fffd8a..303e4ef 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -187,7 +187,7 @@ class default(_texter):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["mantissatexter", "basetexter", "exponenttexter"], allow_only_split=True)
         if "mantissatexter" in split_kwargs: mantissatexter = decimal(**split_kwargs["mantissatexter"])
         if "basetexter" in split_kwargs: basetexter = decimal(**split_kwargs["basetexter"])
-        if "exponenttexter" in split_kwargs: texter = decimal(**split_kwargs["exponenttexter"])
+        if "exponenttexter" in split_kwargs: exponenttexter = decimal(**split_kwargs["exponenttexter"])
 
         self.multiplicationtex = multiplicationtex
         self.multiplicationunicode = multiplicationunicode
-- 
2.43.0


From bf9ce2b12ad85fe8777d5b6d7e7d74acf0d17dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 024/115] fix: ticks created from fractions are exact (labels
 with mantissas like 10/3)

---
 pyx/graph/axis/tick.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index 871a773..8e93aee 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -23,6 +23,7 @@
 
 
 import sys, functools
+from fractions import Fraction
 
 # test automatic long conversion
 try:
@@ -111,7 +112,8 @@ class rational:
           - a string (like "1.2", "1.2e3", "1.2/3.4", etc.)
           - a float (converted using floatprecision)
           - a sequence of two integers
-          - a rational instance"""
+          - a rational instance
+          - a fraction (from Python's fractions module)"""
         if power == 0:
             self.num = 1
             self.denom = 1
@@ -119,6 +121,8 @@ class rational:
         if isinstance(x, rational):
             # copy exactly (note that a rational behaves like a number, too)
             x = x.num, x.denom
+        elif isinstance(x, Fraction):
+            x = x.numerator, x.denominator
         try:
             # does x behave like a number
             x + 0
-- 
2.43.0


From 42925039e7e81cbd56a1377abe01e67560c525bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 025/115] fix: graphs are finished when they are written to SVG

---
 pyx/graph/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 3f07a45..6384a88 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -193,6 +193,10 @@ class graph(canvas.canvas):
         self.finish()
         canvas.canvas.processPDF(self, file, writer, context, registry, bbox)
 
+    def processSVG(self, xml, writer, context, registry, bbox):
+        self.finish()
+        canvas.canvas.processSVG(self, xml, writer, context, registry, bbox)
+
     def plot(self, data, styles=None, rangewarning=1):
         if self.didranges and rangewarning:
             logger.warning("axes ranges have already been analysed; no further adjustments will be performed")
-- 
2.43.0


From dcb11b843ff0ebf613c37c2bbbd732bad3e13e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 026/115] fix: different bitmaps sharing the same colour data
 get different names

---
 pyx/bitmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 6adba06..fd4726c 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -430,7 +430,9 @@ class bitmap_trafo(baseclasses.canvasitem):
             else:
                 alpha = alpha.tobytes()
 
-        imagehash = hashlib.sha1(data).hexdigest()[0:15]
+        # the hash needs to cover everything which makes up the image
+        imageproperties = repr((mode, self.imagewidth, self.imageheight, alpha, palettemode, palettedata))
+        imagehash = hashlib.sha1(imageproperties.encode("ascii") + data).hexdigest()[0:15]
 
         return mode, data, alpha, palettemode, palettedata, imagehash
 
-- 
2.43.0


From d865a1b0ab2e1909a779244d462ed84c72cf2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 027/115] fix: annotations belong to the PDF page they are
 placed on

---
 pyx/pdfwriter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 72f2f61..67c58a3 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -281,6 +281,12 @@ class PDFpage(PDFobject):
 
         self.pdfcontent = PDFcontent(page, writer, self.pageregistry)
         self.pageregistry.add(self.pdfcontent)
+
+        # annotations are collected in a single object per page, which must
+        # not become merged with the annotations of the other pages
+        self.pdfannotations = self.pageregistry.types.get("annotations", {}).get("annotations")
+        if self.pdfannotations is not None:
+            self.pdfannotations.id = id(self.pdfannotations)
         registry.mergeregistry(self.pageregistry)
 
     def write(self, file, writer, registry):
@@ -300,9 +306,8 @@ class PDFpage(PDFobject):
         if self.page.rotated:
             file.write("/Rotate 90\n")
 
-        pdfannotations = PDFannotations([])
-        if pdfannotations in registry:
-            file.write("/Annots %i 0 R\n" % registry.getrefno(pdfannotations))
+        if self.pdfannotations is not None:
+            file.write("/Annots %i 0 R\n" % registry.getrefno(self.pdfannotations))
         file.write("/Contents %i 0 R\n" % registry.getrefno(self.pdfcontent))
         file.write("/Resources ")
         self.pageregistry.writeresources(file)
-- 
2.43.0


From 2fd4e4c355d67785d25bcd80f5a99ad1fe28bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 028/115] fix: PDF text fields with fill styles

---
 pyx/canvas.py   | 2 +-
 pyx/pdfextra.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 6b302ca..5568640 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -222,7 +222,7 @@ class canvas(baseclasses.canvasitem):
                 file.write("q\n") # gsave
                 for attr in self.styles:
                     if isinstance(attr, style.fillstyle):
-                        context.fillstyles.append(attr)
+                        context.fillstyles = context.fillstyles + [attr]
                     attr.processPDF(file, writer, context, registry)
                 if self.clip is not None:
                     self.clip.processPDF(file, writer, context, registry)
diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index aa64e5e..2b27030 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -244,7 +244,7 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
                 cont = pdfwriter.context()
                 cont.fillattr = 1
                 cont.strokeattr = 0
-                attr.processPDF(fillstring, writer, cont, self.registry, bbox)
+                attr.processPDF(fillstring, writer, cont, self.registry)
         self.fillstyles = fillstring.getvalue()
         fillstring.close()
 
-- 
2.43.0


From a51efdf53a3773f02b75cdc9ca3b6f13a7ef456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 029/115] fix: patterns select the PDF pattern color space
 after a color has been set

---
 pyx/color.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/color.py b/pyx/color.py
index 7ea28af..cc004b8 100644
--- a/pyx/color.py
+++ b/pyx/color.py
@@ -84,6 +84,7 @@ class gray(color):
             file.write("%f G\n" % self.g)
         if context.fillattr:
             file.write("%f g\n" % self.g)
+            context.colorspace = None
 
     def cmyk(self):
         return cmyk(0, 0, 0, 1 - self.g)
@@ -133,6 +134,7 @@ class rgb(color):
             file.write("%f %f %f RG\n" % (self.r, self.g, self.b))
         if context.fillattr:
             file.write("%f %f %f rg\n" % (self.r, self.g, self.b))
+            context.colorspace = None
 
     def cmyk(self):
         # conversion to cmy
@@ -252,6 +254,7 @@ class cmyk(color):
             file.write("%f %f %f %f K\n" % (self.c, self.m, self.y, self.k))
         if context.fillattr:
             file.write("%f %f %f %f k\n" % (self.c, self.m, self.y, self.k))
+            context.colorspace = None
 
     def cmyk(self):
         return cmyk(self.c, self.m, self.y, self.k)
-- 
2.43.0


From 890d1e8e466d7e4a29e3909d3f363fd924096cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 030/115] fix: characters beyond Latin-1 in the PDF document
 information

---
 pyx/pdfwriter.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 67c58a3..f17b55a 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -33,6 +33,19 @@ from . import bbox, config, style, unit, version, trafo, writer
 
 
 
+def pdfstring(s):
+    """return the text s as it needs to be written in a PDF string literal"""
+    if any(ord(c) > 255 for c in s):
+        s = (b"\xfe\xff" + s.encode("utf-16-be")).decode("latin-1")
+    r = ""
+    for c in s:
+        if 32 <= ord(c) < 127 and c not in "()[]<>\\":
+            r += c
+        else:
+            r += "\\%03o" % ord(c)
+    return r
+
+
 class PDFregistry:
 
     def __init__(self):
@@ -181,15 +194,6 @@ class PDFinfo(PDFobject):
                 timezone = "Z00'00'"
             creation_date = time.localtime()
 
-        def pdfstring(s):
-            r = ""
-            for c in s:
-                if 32 <= ord(c) <= 127 and c not in "()[]<>\\":
-                    r += c
-                else:
-                    r += "\\%03o" % ord(c)
-            return r
-
         file.write("<<\n")
         if writer.title:
             file.write("/Title (%s)\n" % pdfstring(writer.title))
-- 
2.43.0


From d9126aef05f3d5c2f2f7e0544ad108c59166cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 031/115] fix: deprecated mesh_as_bitmap arguments of the
 writers

---
 pyx/pdfwriter.py | 4 ++--
 pyx/pswriter.py  | 4 ++--
 pyx/svgwriter.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index f17b55a..9ae5d85 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -373,11 +373,11 @@ class PDFwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("PDFwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PDFwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 69a4701..477877e 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -110,11 +110,11 @@ class _PSwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("(E)PSwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PSwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
         # encodings themselves are mappings from glyphnames to codepoints
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 19d168c..9164db2 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -183,7 +183,7 @@ class SVGwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap_resolution is not None:
             logger.warning("SVGwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
-- 
2.43.0


From 73106bbd0e6811d60c7a6564d11139c1a20202ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 032/115] fix: sign of the time zone in the PDF creation date

---
 pyx/pdfwriter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 9ae5d85..d744170 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -185,14 +185,15 @@ class PDFinfo(PDFobject):
             creation_date = time.gmtime(int(os.environ.get('SOURCE_DATE_EPOCH')))
             timezone = "Z00'00'"
         else:
-            if time.timezone < 0:
+            creation_date = time.localtime()
+            # offset of the local time in seconds east of UTC (including daylight saving time)
+            if creation_date.tm_gmtoff > 0:
+                timezone = "+%02i'%02i'" % divmod(creation_date.tm_gmtoff//60, 60)
+            elif creation_date.tm_gmtoff < 0:
                 # divmod on positive numbers, otherwise the minutes have a different sign from the hours
-                timezone = "-%02i'%02i'" % divmod(-time.timezone/60, 60)
-            elif time.timezone > 0:
-                timezone = "+%02i'%02i'" % divmod(time.timezone/60, 60)
+                timezone = "-%02i'%02i'" % divmod(-creation_date.tm_gmtoff//60, 60)
             else:
                 timezone = "Z00'00'"
-            creation_date = time.localtime()
 
         file.write("<<\n")
         if writer.title:
-- 
2.43.0


From c380a56d7ceb0a87eeab57d8d6e6378075d0cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 033/115] fix: escape special characters in the strings of PDF
 form fields

---
 pyx/pdfextra.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 2b27030..c194dd3 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -264,11 +264,11 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
             file.write("/AP <</N %d 0 R >>\n" % registry.getrefno(self.defaulttext)) # appearance dictionary
         ### the dictionary entries for the form field
         file.write("/FT /Tx\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
-        file.write("/V (%s)\n" % self.defaultvalue) # starting value
-        file.write("/DV (%s)\n" % self.defaultvalue) # reset value
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
+        file.write("/V (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
+        file.write("/DV (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # reset value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR ")
@@ -314,9 +314,9 @@ class PDFdefaulttext(pdfwriter.PDFobject): # <<<
 
     def write(self, file, awriter, registry):
         contentfile = writer.writer(io.BytesIO())
-        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, self.texts[0]))
+        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, pdfwriter.pdfstring(self.texts[0])))
         for text in self.texts[1:]:
-            contentfile.write(" (%s)'" % (text))
+            contentfile.write(" (%s)'" % pdfwriter.pdfstring(text))
         contentfile.write(" ET Q EMC\n")
 
         content = contentfile.file.getvalue()
@@ -479,9 +479,9 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         ### the dictionary entries for the form field
         file.write("/FT /Btn\n") # type of the form field
         file.write("/Kids [%s]\n" % " ".join(["%d 0 R" % registry.getrefno(x) for x in self.checkboxes]))
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         ### the dictionary entries for the radiobuttons field
         file.write("/V /%s\n" % self.defaultvalue)
         file.write(">>\n")
@@ -686,11 +686,11 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         #ile.write("/AP <</N  >>\n") # appearance dictionary TODO
         ### the dictionary entries for the form field
         file.write("/FT /Ch\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         if self.defaultvalue in self.values:
-            file.write("/V (%s)\n" % self.defaultvalue) # starting value
+            file.write("/V (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR <</Font <</%s %d 0 R >> >>\n" % (self.font.name, registry.getrefno(self.font))) # default resources for appearance
@@ -698,7 +698,7 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         file.write("/Q %d\n" % self.alignflag)
         file.write("/Opt [")
         for value in self.values:
-            file.write(" (%s)" % value)
+            file.write(" (%s)" % pdfwriter.pdfstring(value))
         file.write(" ]\n")
         file.write(">>\n")
 # >>>
-- 
2.43.0


From f3e2ac3a533b3e413178124f46ed8f51f1ac49b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 034/115] fix: value of PDF radio buttons is one of the states
 of the buttons

---
 pyx/pdfextra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index c194dd3..743bb7f 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -483,7 +483,8 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
         file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         ### the dictionary entries for the radiobuttons field
-        file.write("/V /%s\n" % self.defaultvalue)
+        # the value needs to be one of the appearance states of the kids
+        file.write("/V /%s\n" % ([x.defaultvalue for x in self.checkboxes if x.defaultvalue != "Off"] + ["Off"])[0])
         file.write(">>\n")
 # >>>
 class PDFcheckboxfield(pdfwriter.PDFobject): # <<<
-- 
2.43.0


From 9bf45a146f4b105f5d4fddf251a3daae1daf4de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 035/115] fix: bitmaps and meshes within PostScript patterns

A pattern is painted by a procedure, which can not contain inline data.
---
 pyx/bitmap.py   | 17 +++++++++++------
 pyx/mesh.py     | 17 +++++++++++++----
 pyx/pattern.py  |  2 +-
 pyx/pswriter.py |  2 ++
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index fd4726c..19027e8 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -448,18 +448,23 @@ class bitmap_trafo(baseclasses.canvasitem):
         mode, data, alpha, palettemode, palettedata, imagehash = self.imagedata(True)
         pstrafo = trafo.translate_pt(0, -1.0).scaled(self.imagewidth, -self.imageheight)*self.pdftrafo.inverse()
 
-        PSsinglestring = self.PSstoreimage and len(data) < self.PSmaxstrlen
+        # data can only be placed inline when not being within a procedure
+        PSstoreimage = self.PSstoreimage or context.inprocedure
+        PSsinglestring = PSstoreimage and len(data) < self.PSmaxstrlen
         if PSsinglestring:
             PSimagename = "image-%s-%s-singlestring" % (imagehash, self.compressmode)
         else:
             PSimagename = "image-%s-%s-stringarray" % (imagehash, self.compressmode)
 
-        if self.PSstoreimage and not PSsinglestring:
+        if PSstoreimage and not PSsinglestring:
+            # define the variables here, as the dictionary of a pattern procedure is read-only
+            registry.add(pswriter.PSdefinition("imagedataindex", b"0"))
+            registry.add(pswriter.PSdefinition("imagedataid", b"[]"))
             registry.add(pswriter.PSdefinition("imagedataaccess",
                                                b"{ /imagedataindex load " # get list index
                                                b"dup 1 add /imagedataindex exch store " # store increased index
                                                b"/imagedataid load exch get }")) # select string from array
-        if self.PSstoreimage:
+        if PSstoreimage:
             registry.add(PSimagedata(PSimagename, data, PSsinglestring, self.PSmaxstrlen))
         bbox += self.bbox()
 
@@ -475,7 +480,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             file.write("%s setcolorspace\n" % devicenames[mode])
 
-        if self.PSstoreimage and not PSsinglestring:
+        if PSstoreimage and not PSsinglestring:
             file.write("/imagedataindex 0 store\n" # not use the stack since interpreters differ in their stack usage
                        "/imagedataid %s store\n" % PSimagename)
 
@@ -492,7 +497,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         file.write("/Decode %s\n" % decodestrings[mode])
 
         file.write("/DataSource ")
-        if self.PSstoreimage:
+        if PSstoreimage:
             if PSsinglestring:
                 file.write("/%s load" % PSimagename)
             else:
@@ -521,7 +526,7 @@ class bitmap_trafo(baseclasses.canvasitem):
                        "/InterleaveType 1\n"
                        ">>\n")
 
-        if self.PSstoreimage:
+        if PSstoreimage:
             file.write("image\n")
         else:
             if self.PSbinexpand == 2:
diff --git a/pyx/mesh.py b/pyx/mesh.py
index e688f16..710f826 100644
--- a/pyx/mesh.py
+++ b/pyx/mesh.py
@@ -124,18 +124,27 @@ class mesh(baseclasses.canvasitem):
         else:
             thisbbox = self.bbox()
             bbox += thisbbox
+            data = binascii.b2a_hex(zlib.compress(self.data(thisbbox)))
+            if context.inprocedure:
+                # data can not be read from the current file within a procedure
+                if len(data) > 2*65535:
+                    raise ValueError("mesh within a PostScript procedure is limited to 65535 bytes")
+                datasource = "<%s>" % data.decode("ascii")
+            else:
+                datasource = "currentfile /ASCIIHexDecode filter"
             file.write("""<< /ShadingType 4
 /ColorSpace %s
 /BitsPerCoordinate 24
 /BitsPerComponent 8
 /BitsPerFlag 8
 /Decode [%f %f %f %f %s]
-/DataSource currentfile /ASCIIHexDecode filter /FlateDecode filter
+/DataSource %s /FlateDecode filter
 >> shfill\n""" % (self.elements[0].nodes[0].value.colorspacestring(),
                   thisbbox.llx_pt, thisbbox.urx_pt, thisbbox.lly_pt, thisbbox.ury_pt,
-                  " ".join(["0 1" for value in self.elements[0].nodes[0].value.to8bitbytes()])))
-            file.write_bytes(binascii.b2a_hex(zlib.compress(self.data(thisbbox))))
-            file.write(">\n")
+                  " ".join(["0 1" for value in self.elements[0].nodes[0].value.to8bitbytes()]), datasource))
+            if not context.inprocedure:
+                file.write_bytes(data)
+                file.write(">\n")
 
     def processPDF(self, file, writer, context, registry, bbox):
         if writer.meshasbitmap:
diff --git a/pyx/pattern.py b/pyx/pattern.py
index d2fc0bd..89eb4ff 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -74,7 +74,7 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
         # process pattern, letting it register its resources and calculate the bbox of the pattern
         patternfile = writermodule.writer(io.BytesIO())
         realpatternbbox = bboxmodule.empty()
-        canvas.canvas.processPS(self, patternfile, writer, pswriter.context(), registry, realpatternbbox)
+        canvas.canvas.processPS(self, patternfile, writer, pswriter.context()(inprocedure=True), registry, realpatternbbox)
         patternproc = patternfile.file.getvalue()
 
         if self.xstep is None:
diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 477877e..77a5894 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -272,6 +272,8 @@ class context:
         self.colorspace = None
         self.selectedfont = None
         self.fillrule = 0
+        # within a procedure data can not be read from the current file
+        self.inprocedure = False
 
     def __call__(self, **kwargs):
         newcontext = copy.copy(self)
-- 
2.43.0


From 5ae5fda8857ac80fef50a1baa4fedd3cb4e6094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 036/115] fix: structure comments and hexadecimal encoding of
 bitmaps in PostScript

---
 pyx/bitmap.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 19027e8..7cf6e90 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -43,7 +43,7 @@ decodestrings = {"L": "[0 1]",
 def ascii85lines(datalen):
     if datalen < 4:
         return 1
-    return (datalen + 56)/60
+    return (datalen + 56)//60
 
 def ascii85stream(file, data):
     """Encodes the string data in ASCII85 and writes it to
@@ -84,12 +84,12 @@ def ascii85stream(file, data):
 
 _asciihexlinelength = 64
 def asciihexlines(datalen):
-    return (datalen*2 + _asciihexlinelength - 1) / _asciihexlinelength
+    return (datalen*2 + _asciihexlinelength - 1) // _asciihexlinelength
 
 def asciihexstream(file, data):
     hexdata = binascii.b2a_hex(data)
-    for i in range((len(hexdata)-1)/_asciihexlinelength + 1):
-        file.write(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
+    for i in range((len(hexdata)-1)//_asciihexlinelength + 1):
+        file.write_bytes(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
         file.write("\n")
 
 
@@ -223,7 +223,7 @@ class PSimagedata(pswriter.PSresource):
         self.maxstrlen = maxstrlen
 
     def output(self, file, writer, registry):
-        file.write("%%%%BeginRessource: %s\n" % self.id)
+        file.write("%%%%BeginResource: %s\n" % self.id)
         if self.singlestring:
             file.write("%%%%BeginData: %i ASCII Lines\n"
                        "<~" % ascii85lines(len(self.data)))
@@ -234,7 +234,7 @@ class PSimagedata(pswriter.PSresource):
             datalen = len(self.data)
             tailpos = datalen - datalen % self.maxstrlen
             file.write("%%%%BeginData: %i ASCII Lines\n" %
-                       ((tailpos/self.maxstrlen) * ascii85lines(self.maxstrlen) +
+                       ((tailpos//self.maxstrlen) * ascii85lines(self.maxstrlen) +
                         ascii85lines(datalen-tailpos)))
             file.write("[ ")
             for i in range(0, tailpos, self.maxstrlen):
@@ -248,7 +248,7 @@ class PSimagedata(pswriter.PSresource):
             file.write("]\n"
                        "%%EndData\n")
         file.write("/%s exch def\n" % self.id)
-        file.write("%%EndRessource\n")
+        file.write("%%EndResource\n")
 
 
 class PDFimagepalettedata(pdfwriter.PDFobject):
@@ -531,7 +531,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             if self.PSbinexpand == 2:
                 file.write("%%%%BeginData: %i ASCII Lines\n"
-                           "image\n" % (asciihexlines(len(data)) + 1))
+                           "image\n" % (asciihexlines(len(data)) + 2))
                 asciihexstream(file, data)
                 file.write(">\n")
             else:
-- 
2.43.0


From f4cfac8764cd97f0bc2064b885a89f656e51e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 037/115] fix: options of the PostScript and SVG writers for
 meshes, deprecated names and merging registries

---
 pyx/pswriter.py  | 7 +++++--
 pyx/svgwriter.py | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 77a5894..c25f8e1 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -20,9 +20,11 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, math, os
+import io, copy, logging, time, math, os
 from . import bbox, config, style, version, unit, trafo, writer
 
+logger = logging.getLogger("pyx")
+
 
 class PSregistry:
 
@@ -43,7 +45,7 @@ class PSregistry:
            self.resourceslist.append(resource)
 
     def mergeregistry(self, registry):
-        for resource in registry.resources:
+        for resource in registry.resourceslist:
             self.add(resource)
 
     def output(self, file, writer):
@@ -115,6 +117,7 @@ class _PSwriter:
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PSwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
             meshasbitmapresolution = mesh_as_bitmap_resolution
+        self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
         # encodings themselves are mappings from glyphnames to codepoints
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 9164db2..4f73323 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -19,9 +19,11 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, xml.sax.saxutils
+import io, copy, logging, time, xml.sax.saxutils
 from . import bbox, config, style, version, unit, trafo
 
+logger = logging.getLogger("pyx")
+
 svg_uri = "http://www.w3.org/2000/svg"
 xlink_uri = "http://www.w3.org/1999/xlink"
 
@@ -44,7 +46,7 @@ class SVGregistry:
            self.resourceslist.append(resource)
 
     def mergeregistry(self, registry):
-        for resource in registry.resources:
+        for resource in registry.resourceslist:
             self.add(resource)
 
     def output(self, xml, writer):
-- 
2.43.0


From 7da1b1e04ac84fd5cdafb42fdb8795f585be888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 038/115] fix: remember the state changed by a canvas not being
 enclosed by gsave and grestore

---
 pyx/canvas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 5568640..625be16 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -192,9 +192,10 @@ class canvas(baseclasses.canvasitem):
         return obbox
 
     def processPS(self, file, writer, context, registry, bbox):
-        context = context()
         if self.items:
             if self.modifies_state:
+                # without gsave/grestore the changes of the state remain in effect
+                context = context()
                 file.write("gsave\n")
                 for attr in self.styles:
                     attr.processPS(file, writer, context, registry)
-- 
2.43.0


From 72890f12380693aef81147c650c1ac98ffc4506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 039/115] fix: texts in the document structuring comments of
 PostScript files

---
 pyx/pswriter.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index c25f8e1..f666419 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -95,6 +95,23 @@ class PSdefinition(PSresource):
 # Writers
 #
 
+def _dsctext(s, textline=False):
+    """ return s as the text argument of a document structuring comment
+
+    A textline extends to the end of the line and may thus contain spaces. """
+    if s and s[0] not in "( " and all((" " if textline else "!") <= c <= "~" for c in s):
+        return s
+    return "(%s)" % "".join("\\" + chr(c) if chr(c) in "()\\" else chr(c) if 32 <= c < 127 else "\\%03o" % c
+                            for c in s.encode("latin-1", errors="replace"))
+
+
+def _medianame(paperformat):
+    """ return the name of a paperformat within document structuring comments """
+    if paperformat.name is None:
+        return "Custom-%dx%d" % (round(unit.topt(paperformat.width)), round(unit.topt(paperformat.height)))
+    return _dsctext(str(paperformat.name))
+
+
 class _PSwriter:
 
     def __init__(self, title=None, 
@@ -130,7 +147,7 @@ class _PSwriter:
             creation_date = time.localtime()
         file.write("%%%%Creator: PyX %s\n" % version.version)
         if self.title is not None:
-            file.write("%%%%Title: %s\n" % self.title)
+            file.write("%%%%Title: %s\n" % _dsctext(str(self.title), textline=True))
         file.write("%%%%CreationDate: %s\n" %
                    time.asctime(creation_date))
 
@@ -203,9 +220,9 @@ class PSwriter(_PSwriter):
 
             documentbbox += pagebbox
 
-            pagesfile.write("%%%%Page: %s %d\n" % (page.pagename is None and str(nr+1) or page.pagename, nr+1))
+            pagesfile.write("%%%%Page: %s %d\n" % (page.pagename is None and str(nr+1) or _dsctext(str(page.pagename)), nr+1))
             if page.paperformat:
-                pagesfile.write("%%%%PageMedia: %s\n" % page.paperformat.name)
+                pagesfile.write("%%%%PageMedia: %s\n" % _medianame(page.paperformat))
             pagesfile.write("%%%%PageOrientation: %s\n" % (page.rotated and "Landscape" or "Portrait"))
             if pagebbox and writebbox:
                 pagesfile.write("%%%%PageBoundingBox: %d %d %d %d\n" % pagebbox.lowrestuple_pt())
@@ -230,7 +247,8 @@ class PSwriter(_PSwriter):
         paperformats = {}
         for page in document.pages:
             if page.paperformat:
-                paperformats[page.paperformat] = page.paperformat
+                # different paperformat instances might describe the same medium
+                paperformats[_medianame(page.paperformat)] = page.paperformat
 
         first = 1
         for paperformat in list(paperformats.values()):
@@ -239,9 +257,9 @@ class PSwriter(_PSwriter):
                 first = 0
             else:
                 file.write("%%+ ")
-            file.write("%s %d %d 75 white ()\n" % (paperformat.name,
-                                                   unit.topt(paperformat.width),
-                                                   unit.topt(paperformat.height)))
+            file.write("%s %d %d 75 white ()\n" % (_medianame(paperformat),
+                                                   round(unit.topt(paperformat.width)),
+                                                   round(unit.topt(paperformat.height))))
 
         # file.write(%%DocumentNeededResources: ") # register not downloaded fonts here
 
-- 
2.43.0


From ad1fd0e7bc7b45026435824860f73b2c4a3031ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 040/115] fix: end of embedded documents in PostScript

---
 pyx/epsfile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index c6c663a..f855fe6 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -332,10 +332,14 @@ class epsfile(baseclasses.canvasitem):
 
         self.trafo.processPS(file, writer, context, registry)
 
-        file.write("%%%%BeginDocument: %s\n" % self.filename)
+        file.write("%%%%BeginDocument: %s\n" % pswriter._dsctext(self.filename))
 
         with self.open() as epsfile:
-            file.write_bytes(epsfile.read())
+            data = epsfile.read()
+        file.write_bytes(data)
+        if data[-1:] not in [b"\n", b"\r"]:
+            # the comment needs to be on a line of its own
+            file.write("\n")
 
         file.write("%%EndDocument\n")
         file.write("EndEPSF\n")
-- 
2.43.0


From 7da04e0b06baa889625844f3e5f19571ebe90a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 041/115] fix: bitmaps and texts within SVG patterns

---
 pyx/svgwriter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 4f73323..f754f95 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -210,7 +210,14 @@ class SVGwriter:
         pagesvg.endSVGElement("svg")
         pagesvg.endSVGDocument()
 
-        x = SVGGenerator(file, xlink=pagesvg.xlink_used)
+        # resources might register further resources (and use the xlink namespace),
+        # hence we need to process them before the actual output
+        registrysvg = SVGGenerator(io.BytesIO())
+        registrysvg.startSVGDocument()
+        registrysvg.startSVGElement("svg", {})
+        registry.output(registrysvg, self)
+
+        x = SVGGenerator(file, xlink=pagesvg.xlink_used or registrysvg.xlink_used)
         x.startSVGDocument()
         attrs = {"fill": "none", "version": "1.1"}
         if pagebbox:
-- 
2.43.0


From e8d8e69028cd1662de03629197ecc0a928dc8b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 042/115] fix: slanted and fully transparent texts in SVG

---
 pyx/font/font.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index b3a1b3e..ffe028d 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -728,10 +728,11 @@ class T1text_pt(text_pt):
                      "font-size": "%f" % self.size_pt,
                      "font-family": fontname,
                      "fill": context.fillcolor}
-            if context.fillopacity:
+            if context.fillopacity != 1:
                 attrs["opacity"] = "%f" % context.fillopacity
             if self.slant:
-                trafo.trafo_pt(matrix=((1, self.slant), (0, 1))).outputSVGattrs(attrs, writer, context, registry)
+                slanttrafo = trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0))
+                slanttrafo.processSVGattrs(attrs, writer, context, registry)
             xml.startSVGElement("text", attrs)
             tspan = False
             for i, value in enumerate(data):
-- 
2.43.0


From 064b485f1acfc03712ca6f3fd3450beba14285e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 043/115] fix: different glyphs of an SVG font sharing a
 unicode character

---
 pyx/font/font.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index ffe028d..c51cfaf 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -325,7 +325,9 @@ class SVGT1mapping:
         # glyphnames and charcodes are not stored as sets, but are dicts
         # mapping the values to unicode characters. If the glyphnames and
         # charcodes are contained in _glyphnames and _charcodes, use those
-        # values, otherwise use the private use areas A and B.
+        # values, otherwise use the private use areas A and B. The latter are
+        # also used when the unicode character is already in use, as a charcode
+        # and a glyphname might denote different glyphs.
         self.private_glyphname = 0xf0000
         self.private_charcode = 0x100000
         self.glyphnames = {}
@@ -336,7 +338,7 @@ class SVGT1mapping:
     def merge_glyphnames(self, glyphnames):
         for glyphname in glyphnames:
             if glyphname not in self.glyphnames:
-                if glyphname in _glyphnames:
+                if glyphname in _glyphnames and _glyphnames[glyphname] not in self.charcodes.values():
                     self.glyphnames[glyphname] = _glyphnames[glyphname]
                 else:
                     self.glyphnames[glyphname] = chr(self.private_glyphname)
@@ -345,7 +347,7 @@ class SVGT1mapping:
     def merge_charcodes(self, charcodes):
         for charcode in charcodes:
             if charcode not in self.charcodes:
-                if charcode in _charcodes:
+                if charcode in _charcodes and _charcodes[charcode] not in self.glyphnames.values():
                     self.charcodes[charcode] = _charcodes[charcode]
                 else:
                     self.charcodes[charcode] = chr(self.private_charcode)
-- 
2.43.0


From 881d3b218ff7b7d45731c243b230f14d25c41426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 044/115] fix: font definitions between the pages of a DVI file

---
 pyx/dvi/dvifile.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index ebe938e..08ecc0b 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -400,6 +400,25 @@ class DVIfile:
             else:
                 raise DVIError
 
+    def _read_fntdef(self, cmd):
+        """ reads the parameters of a font definition (which might occur between and within pages) """
+        afile = self.file
+        if cmd == _DVI_FNTDEF1234:
+            num = afile.readuchar()
+        elif cmd == _DVI_FNTDEF1234+1:
+            num = afile.readuint16()
+        elif cmd == _DVI_FNTDEF1234+2:
+            num = afile.readuint24()
+        elif cmd == _DVI_FNTDEF1234+3:
+            # Cool, here we have according to docu a signed int. Why?
+            num = afile.readint32()
+        self.definefont(cmd-_DVI_FNTDEF1234+1,
+                        num,
+                        afile.readint32(),
+                        afile.readint32(),
+                        afile.readint32(),
+                        afile.read(afile.readuchar()+afile.readuchar()).decode("ascii"))
+
     def readpage(self, pageid=None, fontmap=None, singlecharmode=False, attrs=[]):
         """ reads a page from the dvi file
 
@@ -422,6 +441,8 @@ class DVIfile:
                     self.debugfile.write("%d: beginning of page %i\n" % (self.filepos, ispageid[0]))
                 self.file.readuint32()
                 break
+            elif cmd >= _DVI_FNTDEF1234 and cmd < _DVI_FNTDEF1234 + 4:
+                self._read_fntdef(cmd)
             elif cmd == _DVI_POST:
                 self.file.close()
                 return None # nothing left
@@ -597,20 +618,6 @@ class DVIfile:
             elif cmd >= _DVI_SPECIAL1234 and cmd < _DVI_SPECIAL1234 + 4:
                 self.special(afile.read(afile.readint(cmd - _DVI_SPECIAL1234 + 1)).decode("ascii"), fontmap)
             elif cmd >= _DVI_FNTDEF1234 and cmd < _DVI_FNTDEF1234 + 4:
-                if cmd == _DVI_FNTDEF1234:
-                    num = afile.readuchar()
-                elif cmd == _DVI_FNTDEF1234+1:
-                    num = afile.readuint16()
-                elif cmd == _DVI_FNTDEF1234+2:
-                    num = afile.readuint24()
-                elif cmd == _DVI_FNTDEF1234+3:
-                    # Cool, here we have according to docu a signed int. Why?
-                    num = afile.readint32()
-                self.definefont(cmd-_DVI_FNTDEF1234+1,
-                                num,
-                                afile.readint32(),
-                                afile.readint32(),
-                                afile.readint32(),
-                                afile.read(afile.readuchar()+afile.readuchar()).decode("ascii"))
+                self._read_fntdef(cmd)
             else:
                 raise DVIError
-- 
2.43.0


From 65456ea04c764a142e51bde72b76b6be1ea3275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 045/115] fix: no operation command within a page of a DVI file

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 08ecc0b..f7a612c 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -468,7 +468,7 @@ class DVIfile:
                 continue
             if cmd == _DVI_NOP:
                 pass
-            if cmd >= _DVI_CHARMIN and cmd <= _DVI_CHARMAX:
+            elif cmd >= _DVI_CHARMIN and cmd <= _DVI_CHARMAX:
                 self.putchar(cmd, True, 0, fontmap)
             elif cmd >= _DVI_SET1234 and cmd < _DVI_SET1234 + 4:
                 self.putchar(afile.readint(cmd - _DVI_SET1234 + 1), True, cmd-_DVI_SET1234+1, fontmap)
-- 
2.43.0


From 625684eda222368b012193a19690b6e7891ffed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 046/115] fix: advance by a rule within a virtual font
 character

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index f7a612c..6c62599 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -154,7 +154,7 @@ class DVIfile:
             if self.debug:
                 self.debugfile.write(" h:=%d+%d=%d, hh:=???\n" %
                                      (self.pos[_POS_H], width, self.pos[_POS_H]+width))
-            self.pos[_POS_H] += width * self.scale
+            self.pos[_POS_H] += width
 
     def putchar(self, char, advancepos, id1234, fontmap):
         dx = advancepos and self.activefont.getwidth_dvi(char) or 0
-- 
2.43.0


From 52de09161348627621ec683357f5b6d15ee8edb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 047/115] fix: font size in magnified DVI files

---
 pyx/dvi/texfont.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/dvi/texfont.py b/pyx/dvi/texfont.py
index 33c148f..2506c6d 100644
--- a/pyx/dvi/texfont.py
+++ b/pyx/dvi/texfont.py
@@ -61,10 +61,10 @@ class TeXfont:
 
     def getsize_pt(self):
         """ return size of font in (PS) points """
-        # The factor 16L/16777216L=2**(-20) converts a fix_word (here self.q)
-        # to the corresponding float. Furthermore, we have to convert from TeX
-        # points to points, hence the factor 72/72.27.
-        return 72/72.27 * 16*self.q/16777216
+        # The size (here self.q as a fix_word) is converted to dvi units first
+        # and to PostScript
+        # points to points, which includes the magnification of the dvi file.
+        return self.q*self.tfmconv*self.pyxconv
 
     def _convert_tfm_to_dvi(self, length):
         # doing the integer math with long integers will lead to different roundings
-- 
2.43.0


From 56e90c987664053bb3a9420c3b5f6b91a372152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 048/115] fix: registers and default font in virtual font
 characters

---
 pyx/dvi/dvifile.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 6c62599..1a6660c 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -346,7 +346,14 @@ class DVIfile:
         self.stack = []
         self.filepos = 0
 
-        self.usefont(0, 0, fontmap)
+        # a packet is executed with cleared registers w, x, y and z and
+        # the first font defined in the vf file
+        self.flushtext(fontmap)
+        self.pos = self.pos[:_POS_W] + [0, 0, 0, 0]
+        self.activefont = None
+        for fontnum in fonts:
+            self.usefont(fontnum, 0, fontmap)
+            break
 
     def _pop_dvistring(self, fontmap):
         self.flushtext(fontmap)
-- 
2.43.0


From 8ce8dbe3c81e15f806cc47a339448f14f8df4e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 049/115] fix: color and transformation groups not closed on a
 DVI page

---
 pyx/dvi/dvifile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 1a6660c..838fd6e 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -456,7 +456,7 @@ class DVIfile:
             else:
                 raise DVIError
 
-        self.actpage = canvas.canvas(attrs)
+        self.actpage = page = canvas.canvas(attrs)
         self.actpage.markers = {}
         self.pos = [0, 0, 0, 0, 0, 0]
 
@@ -489,6 +489,9 @@ class DVIfile:
                 self.flushtext(fontmap)
                 if self.debug:
                     self.debugfile.write("%d: eop\n \n" % self.filepos)
+                # groups not closed by the specials end with the page
+                while self.actpage is not page:
+                    self.endsubpage()
                 return self.actpage
             elif cmd == _DVI_PUSH:
                 self.stack.append(list(self.pos))
-- 
2.43.0


From 351802569454e71b6077d1395f1721e97ff935ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 050/115] fix: specials containing non-ascii characters

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 838fd6e..0b1628d 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -626,7 +626,7 @@ class DVIfile:
                 fntnum = afile.readint(cmd - _DVI_FNT1234 + 1, cmd == _DVI_FNT1234 + 3)
                 self.usefont(fntnum, cmd-_DVI_FNT1234+1, fontmap)
             elif cmd >= _DVI_SPECIAL1234 and cmd < _DVI_SPECIAL1234 + 4:
-                self.special(afile.read(afile.readint(cmd - _DVI_SPECIAL1234 + 1)).decode("ascii"), fontmap)
+                self.special(afile.read(afile.readint(cmd - _DVI_SPECIAL1234 + 1)).decode("ascii", errors="surrogateescape"), fontmap)
             elif cmd >= _DVI_FNTDEF1234 and cmd < _DVI_FNTDEF1234 + 4:
                 self._read_fntdef(cmd)
             else:
-- 
2.43.0


From ba5a07b9515a0969b28404c9b94fcedafa4958c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 051/115] fix: long character packets in virtual fonts

---
 pyx/dvi/vffile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/vffile.py b/pyx/dvi/vffile.py
index 819bd40..e21ed89 100644
--- a/pyx/dvi/vffile.py
+++ b/pyx/dvi/vffile.py
@@ -90,7 +90,7 @@ class vffile:
                 # character packet (long form)
                 pl = afile.readuint32()   # packet length
                 cc = afile.readuint32()   # char code (assumed unsigned, but anyhow only 0 <= cc < 255 is actually used)
-                tfm = afile.readuint24()  # character width
+                tfm = afile.readint32()   # character width
                 dvi = afile.read(pl)      # dvi code of character
                 self.widths[cc] = tfm
                 self.chardefs[cc] = dvi
-- 
2.43.0


From ef7c1c3102a71740296718af1622740e1c05dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 052/115] fix: division of a normpathparam

---
 pyx/normpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index f0da965..abda854 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1497,6 +1497,8 @@ class normpathparam:
     def __div__(self, divisor):
         return self.normpath.arclentoparam_pt(self.normpath.paramtoarclen_pt(self) / divisor)
 
+    __truediv__ = __div__
+
     def __neg__(self):
         return self.normpath.arclentoparam_pt(-self.normpath.paramtoarclen_pt(self))
 
-- 
2.43.0


From b674439c37c482a1bb068b2a23b4e2af7e070b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 053/115] fix: arc lengths of unordered or extrapolated params
 on a curve

---
 pyx/normpath.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index abda854..7f0ddce 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -582,10 +582,12 @@ class normcurve_pt(normsubpathitem):
                             x_pt, y_pt)
 
     def _paramtoarclen_pt(self, params, epsilon):
-        arclens_pt = [segment.arclen_pt(epsilon) for segment in self.segments([0] + list(params) + [1])]
-        for i in range(1, len(arclens_pt)):
-            arclens_pt[i] += arclens_pt[i-1]
-        return arclens_pt[:-1], arclens_pt[-1]
+        # note that params might be unsorted and might be beyond the ends of the curve
+        sortedparams = sorted({0, 1}.union(params))
+        arclens_pt = {sortedparams[0]: 0}
+        for param, nextparam, segment in zip(sortedparams, sortedparams[1:], self.segments(sortedparams)):
+            arclens_pt[nextparam] = arclens_pt[param] + segment.arclen_pt(epsilon)
+        return [arclens_pt[param] - arclens_pt[0] for param in params], arclens_pt[1] - arclens_pt[0]
 
     def pathitem(self):
         from . import path
-- 
2.43.0


From 691f891d85b75611d35d1efa2cae321b246840ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 054/115] fix: reversing a subpath without extent

---
 pyx/normpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 7f0ddce..4a609da 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1288,6 +1288,8 @@ class normsubpath:
         nnormpathitems = []
         for i in range(len(self.normsubpathitems)):
             nnormpathitems.append(self.normsubpathitems[-(i+1)].reversed())
+        if not nnormpathitems and self.skippedline:
+            nnormpathitems.append(self.skippedline.reversed())
         return normsubpath(nnormpathitems, self.closed, self.epsilon)
 
     def rotation(self, params):
-- 
2.43.0


From 44c5d3db6abfc3f40c675d37692cd0b6aa60ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 055/115] fix: rotation_pt and trafo_pt methods of paths

---
 pyx/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 733a636..94879fc 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -1261,7 +1261,7 @@ class path:
 
     def rotation_pt(self, params):
         """return rotation at param(s) or arc length(s) in pts"""
-        return self.normpath().rotation(params)
+        return self.normpath().rotation_pt(params)
 
     def rotation(self, params):
         """return rotation at param(s) or arc length(s)"""
@@ -1293,7 +1293,7 @@ class path:
 
     def trafo_pt(self, params):
         """return transformation at param(s) or arc length(s) in pts"""
-        return self.normpath().trafo(params)
+        return self.normpath().trafo_pt(params)
 
     def trafo(self, params):
         """return transformation at param(s) or arc length(s)"""
-- 
2.43.0


From 18ffedf497b7e57aa3c38caa8fb7fa1f40290f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 056/115] fix: join to a subpath without extent

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 4a609da..86e36b3 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1224,7 +1224,7 @@ class normsubpath:
         if other.closed:
             raise NormpathException("Cannot join closed normsubpath")
 
-        if self.normsubpathitems:
+        if self.normsubpathitems or self.skippedline:
             # insert connection line
             x0_pt, y0_pt = self.atend_pt()
             x1_pt, y1_pt = other.atbegin_pt()
-- 
2.43.0


From 1ac68b9b3f45528a523fd958e756b40ce0856473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 057/115] fix: params for arc lengths on straight curves

---
 pyx/normpath.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 86e36b3..f795f1f 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -741,10 +741,11 @@ class _leftnormline_pt(normline_pt):
 
     def subparamtoparam(self, param):
         if 0 <= param <= 1:
-            params = mathutils.realpolyroots(self.l1_pt-2*self.l2_pt+self.l3_pt,
-                                             -3*self.l1_pt+3*self.l2_pt,
-                                             3*self.l1_pt,
-                                             -param*(self.l1_pt+self.l2_pt+self.l3_pt))
+            # rounding errors must not become the leading coefficients of the polynomial
+            l_pt = self.l1_pt+self.l2_pt+self.l3_pt
+            a3_pt, a2_pt = [a_pt if abs(a_pt) > 1e-8*l_pt else 0
+                            for a_pt in (self.l1_pt-2*self.l2_pt+self.l3_pt, -3*self.l1_pt+3*self.l2_pt)]
+            params = mathutils.realpolyroots(a3_pt, a2_pt, 3*self.l1_pt, -param*l_pt)
             # we might get several solutions and choose the one closest to 0.5
             # (we want the solution to be in the range 0 <= param <= 1; in case
             # we get several solutions in this range, they all will be close to
-- 
2.43.0


From 956c565b4d9f5ca993a58809ee3870d5c89e65b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 058/115] fix: inplace addition and joining of normpaths
 sharing subpaths

---
 pyx/normpath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index f795f1f..6665dc0 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1571,8 +1571,7 @@ class normpath:
 
     def __iadd__(self, other):
         """add other inplace"""
-        for normsubpath in other.normpath().normsubpaths:
-            self.normsubpaths.append(normsubpath.copy())
+        self.normsubpaths.extend([normsubpath.copy() for normsubpath in other.normpath().normsubpaths])
         return self
 
     def __getitem__(self, i):
@@ -1794,7 +1793,8 @@ class normpath:
         The last normsubpath of self will be joined to the first
         normsubpath of other.
         """
-        other = other.normpath()
+        # copy to not share subpaths with other (which might be self)
+        other = other.normpath().copy()
 
         if not self.normsubpaths:
             raise NormpathException("cannot join to empty path")
-- 
2.43.0


From ba934f50823d28e30d6dcceea0af9650ad7c1d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 059/115] fix: parts of a split normpath sharing subpaths with
 it

---
 pyx/normpath.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 6665dc0..ae9d66a 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1323,7 +1323,7 @@ class normsubpath:
             raise ValueError("at least two parameters needed in segments")
         if not self.normsubpathitems:
             assert not self.closed # "empty" normsubpath cannot be closed
-            return [self]*(len(params)-1)
+            return [self.copy() for i in range(len(params)-1)]
 
         result = [normsubpath(epsilon=self.epsilon)]
 
@@ -1902,14 +1902,14 @@ class normpath:
                     # gap to the forthcoming index
                     if param.normsubpathindex > collectindex:
                         for i in range(collectindex+1, param.normsubpathindex):
-                            result[-1].append(self.normsubpaths[i])
+                            result[-1].append(self.normsubpaths[i].copy())
                         collectparams = [0]
                     else:
                         for i in range(collectindex-1, param.normsubpathindex, -1):
                             result[-1].append(self.normsubpaths[i].reversed())
                         collectparams = [len(self.normsubpaths[param.normsubpathindex])]
                 else:
-                    result = [normpath(self.normsubpaths[:param.normsubpathindex])]
+                    result = [normpath([normsubpath.copy() for normsubpath in self.normsubpaths[:param.normsubpathindex]])]
                     collectparams = [0]
                 collectindex = param.normsubpathindex
             collectparams.append(param.normsubpathparam)
@@ -1918,7 +1918,7 @@ class normpath:
         segments = self.normsubpaths[collectindex].segments(collectparams)
         result[-1].append(segments[0])
         result.extend([normpath([segment]) for segment in segments[1:]])
-        result[-1].extend(self.normsubpaths[collectindex+1:])
+        result[-1].extend([normsubpath.copy() for normsubpath in self.normsubpaths[collectindex+1:]])
         return result
 
     def split_pt(self, params):
-- 
2.43.0


From c53256fa95014a502521a8a31f2268af345cc6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 060/115] fix: splitting a closed normsubpath twice with
 further normsubpaths behind it

---
 pyx/normpath.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index ae9d66a..bdde433 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1886,6 +1886,10 @@ class normpath:
         # order and collect parameters for splitting of normsubpathitem
         # with index collectindex
         collectindex = None
+        # index of the result which contains the end of the normsubpaths
+        # processed so far (this is not the last result for a closed
+        # normsubpath, since its last segment is joined to its first one)
+        resultindex = 0
         for param in params:
             if param.normsubpathindex != collectindex:
                 if collectindex is not None:
@@ -1896,17 +1900,19 @@ class normpath:
                         collectparams.append(0)
                     # get segments of the normsubpath and add them to the result
                     segments = self.normsubpaths[collectindex].segments(collectparams)
-                    result[-1].append(segments[0])
+                    result[resultindex].append(segments[0])
                     result.extend([normpath([segment]) for segment in segments[1:]])
+                    if len(segments) == len(collectparams)-1:
+                        resultindex = len(result)-1
                     # add normsubpathitems and first segment parameter to close the
                     # gap to the forthcoming index
                     if param.normsubpathindex > collectindex:
                         for i in range(collectindex+1, param.normsubpathindex):
-                            result[-1].append(self.normsubpaths[i].copy())
+                            result[resultindex].append(self.normsubpaths[i].copy())
                         collectparams = [0]
                     else:
                         for i in range(collectindex-1, param.normsubpathindex, -1):
-                            result[-1].append(self.normsubpaths[i].reversed())
+                            result[resultindex].append(self.normsubpaths[i].reversed())
                         collectparams = [len(self.normsubpaths[param.normsubpathindex])]
                 else:
                     result = [normpath([normsubpath.copy() for normsubpath in self.normsubpaths[:param.normsubpathindex]])]
@@ -1916,9 +1922,11 @@ class normpath:
         # add remaining collectparams to the result
         collectparams.append(len(self.normsubpaths[collectindex]))
         segments = self.normsubpaths[collectindex].segments(collectparams)
-        result[-1].append(segments[0])
+        result[resultindex].append(segments[0])
         result.extend([normpath([segment]) for segment in segments[1:]])
-        result[-1].extend([normsubpath.copy() for normsubpath in self.normsubpaths[collectindex+1:]])
+        if len(segments) == len(collectparams)-1:
+            resultindex = len(result)-1
+        result[resultindex].extend([normsubpath.copy() for normsubpath in self.normsubpaths[collectindex+1:]])
         return result
 
     def split_pt(self, params):
-- 
2.43.0


From 19fa218619c6820a856a37aca3523bc55c658e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 061/115] fix: stroked parts of decorated paths with closed
 subpaths followed by others

---
 pyx/deco.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 12297d4..c42fdbe 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -107,15 +107,23 @@ class decoratedpath(baseclasses.canvasitem):
 
     def strokepath(self):
         if self.nostrokeranges:
-            splitlist = []
-            for begin, end in self.nostrokeranges:
-                splitlist.append(begin)
-                splitlist.append(end)
-            split = self.path.split(splitlist)
-            # XXX properly handle closed paths?
-            result = split[0]
-            for i in range(2, len(split), 2):
-                result += split[i]
+            ranges = self.path._convertparams([param for nostrokerange in self.nostrokeranges for param in nostrokerange],
+                                              self.path.arclentoparam)
+            result = normpath.normpath()
+            stroking = True
+            for index, normsubpath in enumerate(self.path.normsubpaths):
+                params = [param.normsubpathparam for param in ranges if param.normsubpathindex == index]
+                if params:
+                    if normsubpath.closed and (not stroking or len(params) % 2):
+                        # only one side of the closing point is to be stroked
+                        normsubpath = normpath.normsubpath(normsubpath.normsubpathitems, epsilon=normsubpath.epsilon)
+                    segments = normsubpath.segments([0] + params + [len(normsubpath)])
+                    for segment in segments[not stroking::2]:
+                        result.append(segment)
+                    if len(params) % 2:
+                        stroking = not stroking
+                elif stroking:
+                    result.append(normsubpath)
             return result
         else:
             return self.path
-- 
2.43.0


From ec4579a4159b9838de2ab278da54ca5a692b6ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 062/115] fix: aligning boxes without extent perpendicular to
 the direction

---
 pyx/box.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/box.py b/pyx/box.py
index c09ed7f..d608eb5 100644
--- a/pyx/box.py
+++ b/pyx/box.py
@@ -153,7 +153,9 @@ class polygon_pt:
             l1, l2 = linevectors[i], linevectors[j]
             if (l1 is not None or l2 is not None) and (l1 == 1 or l1 is None) and (l2 == 0 or l2 is None):
                 return alignpointvector(a, dx, dy, *self.successivepoints()[j][0])
-        return a*dx, a*dy
+        # the box is a line along the direction of the alignment (or a point)
+        alpha = a - min((x-self.center[0])*dx + (y-self.center[1])*dy for x, y in self.corners)
+        return alpha*dx, alpha*dy
 
     def circlealignvector_pt(self, a, dx, dy):
         return self.alignvector_pt(a, dx, dy, self.circlealignlinevector_pt, self.circlealignpointvector_pt)
-- 
2.43.0


From 5bcb5fb9ced2d0d68a7a014b7f551ee9f5cc811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 063/115] fix: distance of a box to a box completely inside of
 it

---
 pyx/box.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyx/box.py b/pyx/box.py
index d608eb5..7ce2470 100644
--- a/pyx/box.py
+++ b/pyx/box.py
@@ -234,6 +234,12 @@ class polygon_pt:
                     a / c > -epsilon and a / c < 1 + epsilon and
                     b / c > -epsilon and b / c < 1 + epsilon):
                     raise BoxCrossError
+        # one box might be completely inside the other
+        for outer, (x, y) in [(self, other.corners[0]), (other, self.corners[0])]:
+            sides = [(p2[0] - p1[0]) * (y - p1[1]) - (p2[1] - p1[1]) * (x - p1[0])
+                     for p1, p2 in outer.successivepoints()]
+            if min(sides) > epsilon or max(sides) < -epsilon:
+                raise BoxCrossError
         result = None
         for x, y in other.corners:
             new = self.pointdistance_pt(x, y)
-- 
2.43.0


From 12249b425f5c812d4e4d133c7934363629a52806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 064/115] fix: tiling boxes in a direction which is not a unit
 vector

---
 pyx/box.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/box.py b/pyx/box.py
index 7ce2470..8d1ee32 100644
--- a/pyx/box.py
+++ b/pyx/box.py
@@ -285,6 +285,8 @@ def linealignequal(polygons, a, *args):
 
 
 def tile_pt(polygons, a, dx, dy):
+    n = math.hypot(dx, dy)
+    dx, dy = dx / n, dy / n
     maxextent = polygons[0].extent_pt(dx, dy)
     for p in polygons[1:]:
         extent = p.extent_pt(dx, dy)
-- 
2.43.0


From d4aa6bec6aa3d4fcecd1322f2c002a304b334aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 065/115] fix: connectors which are shorter than the distance
 to the first box

---
 pyx/connector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/connector.py b/pyx/connector.py
index 3ff0faa..e73b5f0 100644
--- a/pyx/connector.py
+++ b/pyx/connector.py
@@ -58,7 +58,8 @@ class connector_pt(normpath.normpath):
             pass
         else:
             sp = self.intersect(cutpath)[0]
-            self.normsubpaths = self.split(sp[-1:])[1].normsubpaths
+            if sp:
+                self.normsubpaths = self.split(sp[-1:])[1].normsubpaths
 
         # cut off the end of self
         center = self.atend_pt()
-- 
2.43.0


From 7b55e8366c11c4bf4814ffc2b502c833b39e0972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 066/115] fix: reading Type 1 fonts in PFA format

---
 pyx/font/t1file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index a5fcd17..9315965 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1163,13 +1163,13 @@ class T1File:
     def from_PFA_bytes(cls, bytes):
         """create a T1File instance from a string of bytes corresponding to a PFA file"""
         try:
-            m1 = bytes.index("eexec") + 6
-            m2 = bytes.index("0"*40)
+            m1 = bytes.index(b"eexec") + 6
+            m2 = bytes.index(b"0"*40)
         except ValueError:
            raise FontFormatError
 
         data1 = bytes[:m1].decode("ascii", errors="surrogateescape")
-        data2eexec = binascii.a2b_hex(bytes[m1: m2].replace(" ", "").replace("\r", "").replace("\n", ""))
+        data2eexec = binascii.a2b_hex(bytes[m1: m2].replace(b" ", b"").replace(b"\r", b"").replace(b"\n", b""))
         data3 = bytes[m2:].decode("ascii", errors="surrogateescape")
         return cls(data1, data2eexec, data3)
 
-- 
2.43.0


From 524567e29bae497c7a603b04f076debcad0fc237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 067/115] fix: writing Type 1 fonts in PFB format

---
 pyx/font/t1file.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 9315965..3026230 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1116,17 +1116,17 @@ class T1File:
             l, x1 = divmod(l, 256)
             l, x2 = divmod(l, 256)
             x4, x3 = divmod(l, 256)
-            return chr(x1) + chr(x2) + chr(x3) + chr(x4)
-        file.write("\200\1")
-        file.write(pfblength(self.data1))
+            return bytes([x1, x2, x3, x4])
+        file.write_bytes(b"\200\1")
+        file.write_bytes(pfblength(self.data1))
         file.write(self.data1)
-        file.write("\200\2")
-        file.write(pfblength(data2eexec))
-        file.write(data2eexec)
-        file.write("\200\1")
-        file.write(pfblength(self.data3))
+        file.write_bytes(b"\200\2")
+        file.write_bytes(pfblength(data2eexec))
+        file.write_bytes(data2eexec)
+        file.write_bytes(b"\200\1")
+        file.write_bytes(pfblength(self.data3))
         file.write(self.data3)
-        file.write("\200\3")
+        file.write_bytes(b"\200\3")
 
     def outputPS(self, file, writer):
         """output the PostScript code for the T1File to the file file"""
-- 
2.43.0


From dde07c694383e260edf0dcb16a79bffd8380d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 068/115] fix: div in Type 1 glyph programs has a real result

---
 pyx/font/t1file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 3026230..e818b51 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -507,7 +507,10 @@ class _T1div(T1cmd):
     def updatepath(self, path, trafo, context):
         num2 = context.t1stack.pop()
         num1 = context.t1stack.pop()
-        context.t1stack.append(divmod(num1, num2)[0])
+        if num1 % num2:
+            context.t1stack.append(num1 / num2)
+        else:
+            context.t1stack.append(num1 // num2)
 
     def gathercalls(self, seacglyphs, subrs, context):
         num2 = context.t1stack.pop()
-- 
2.43.0


From 16f08acc14a8962ec65398b4b0353b1945c43fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 069/115] fix: accent position and width of composite Type 1
 glyphs

---
 pyx/font/t1file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index e818b51..7985855 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -183,9 +183,13 @@ class _T1seac(T1cmd):
         achar = context.t1stack.pop(0)
         aglyph = adobestandardencoding[achar]
         bglyph = adobestandardencoding[bchar]
+        # adx is measured between the left sidebearing points of the composite
+        # and the accent, and the width is the one of the composite
+        sbx, wx, wy = context.x, context.wx, context.wy
         context.t1font.updateglyphpath(bglyph, path, atrafo, context)
-        atrafo = atrafo * trafo.translate_pt(adx-sab, ady)
+        atrafo = atrafo * trafo.translate_pt(sbx+adx-sab, ady)
         context.t1font.updateglyphpath(aglyph, path, atrafo, context)
+        context.wx, context.wy = wx, wy
 
     def gathercalls(self, seacglyphs, subrs, context):
         achar = context.t1stack.pop()
-- 
2.43.0


From 5b9b580e23fc0c9ca4f4fc243df0b976184f1862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 070/115] fix: callothersubr in Type 1 glyph programs takes its
 arguments from the top of the stack

---
 pyx/font/t1file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 7985855..544471d 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -537,8 +537,9 @@ class _T1callothersubr(T1cmd):
     def updatepath(self, path, trafo, context):
         othersubrnumber = context.t1stack.pop()
         n = context.t1stack.pop()
-        for i in range(n):
-            context.psstack.append(context.t1stack.pop(0))
+        args = context.t1stack[len(context.t1stack)-n:]
+        del context.t1stack[len(context.t1stack)-n:]
+        context.psstack.extend(args)
         if othersubrnumber == 0:
             flex_size, x, y = context.psstack[-3:]
             if context.flex:
-- 
2.43.0


From f937aa9a92de179cc8b5198fef43163bfb3d1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 071/115] fix: flex in Type 1 glyph programs after calls of
 other subroutines leaving values on the stack

---
 pyx/font/t1file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 544471d..e246467 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -543,12 +543,12 @@ class _T1callothersubr(T1cmd):
         if othersubrnumber == 0:
             flex_size, x, y = context.psstack[-3:]
             if context.flex:
-                x1, y1, x2, y2, x3, y3 = context.psstack[2:8]
+                x1, y1, x2, y2, x3, y3 = context.psstack[-15:-9]
                 x1, y1 = trafo.apply_pt(x1, y1)
                 x2, y2 = trafo.apply_pt(x2, y2)
                 x3, y3 = trafo.apply_pt(x3, y3)
                 path.append(curveto_pt(x1, y1, x2, y2, x3, y3))
-                x1, y1, x2, y2, x3, y3 = context.psstack[8:14]
+                x1, y1, x2, y2, x3, y3 = context.psstack[-9:-3]
                 x1, y1 = trafo.apply_pt(x1, y1)
                 x2, y2 = trafo.apply_pt(x2, y2)
                 x3, y3 = trafo.apply_pt(x3, y3)
-- 
2.43.0


From 998ed1776877d38eea0dcae8951f2ddf7efc45f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 072/115] fix: smallest number in Type 1 glyph programs

---
 pyx/font/t1file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index e246467..bcd2563 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -817,7 +817,7 @@ class T1File:
                 cmds.append(-((x - 251)*256) - code.pop(0) - 108)
             else: # x = 255, i.e. full size ints
                 y = ((code.pop(0)*256+code.pop(0))*256+code.pop(0))*256+code.pop(0)
-                if y > (1 << 31):
+                if y >= (1 << 31):
                     cmds.append(y - (1 << 32))
                 else:
                     cmds.append(y)
-- 
2.43.0


From 49981a238230a3ea7341fa75df3582239d742b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 073/115] fix: font matrix of slanted builtin fonts in
 PostScript output

---
 pyx/font/font.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index c51cfaf..7b68212 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -565,6 +565,9 @@ class T1text_pt(text_pt):
                 newfontmatrix = trafo.trafo_pt(matrix=((1, self.slant), (0, 1)))
                 if self.font.t1file is not None:
                     newfontmatrix = newfontmatrix * self.font.t1file.fontmatrix
+                else:
+                    # builtin fonts are Type 1 fonts with the usual font matrix
+                    newfontmatrix = newfontmatrix * trafo.trafo_pt(matrix=((0.001, 0), (0, 0.001)))
                 newfontname = "%s-slant%f" % (fontname, self.slant)
                 registry.add(_ChangeFontMatrix)
                 registry.add(PSchangefontmatrix(fontname, newfontname, newfontmatrix))
-- 
2.43.0


From 9e2a666a969bb3c302787669c95aeab47882441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 074/115] fix: slant of text written as path

---
 pyx/font/font.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 7b68212..57f1582 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -534,6 +534,9 @@ class T1text_pt(text_pt):
                     self._textpath += glyphpath.path
                     x_pt += glyphpath.wx_pt
                     y_pt += glyphpath.wy_pt
+            if self.slant:
+                self._textpath = self._textpath.transformed(trafo.trafo_pt(matrix=((1, self.slant), (0, 1)),
+                                                                           vector=(-self.slant*self.y_pt, 0))).path()
         return self._textpath
 
     def processPS(self, file, writer, context, registry, bbox):
-- 
2.43.0


From de18d8e42d1cfeca0c4308b11d71e2c3dd35f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 075/115] fix: fillable histograms without a base value

---
 pyx/graph/style.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 1e4a308..d418aeb 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1265,6 +1265,7 @@ class histogram(_style):
                                            self.defaultfrompathattrs + self.frompathattrs)
         else:
             privatedata.vfromvalue = 0
+            privatedata.vfromvaluecut = 0
 
     def drawpoint(self, privatedata, sharedata, graph, point):
         if privatedata.autohistogram:
-- 
2.43.0


From 6fbf1955d166da5758c1cebf750bf1935b3bd60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 076/115] fix: error bars exceeding graphs with reversed axes

---
 pyx/graph/style.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index d418aeb..9a594d9 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -774,17 +774,20 @@ class errorbar(_style):
                         mincap = 1
                     else:
                         mincap = 0
-                    if vminpos[i] > 1+self.epsilon:
-                        continue
-                    if vminpos[i] < -self.epsilon:
-                        vminpos[i] = 0
-                        mincap = 0
                     vmaxpos = sharedata.vpos[:]
                     if sharedata.vrange[i][1] is not None:
                         vmaxpos[i] = sharedata.vrange[i][1]
                         maxcap = 1
                     else:
                         maxcap = 0
+                    if vminpos[i] > vmaxpos[i]: # reversed axis
+                        vminpos, vmaxpos = vmaxpos, vminpos
+                        mincap, maxcap = maxcap, mincap
+                    if vminpos[i] > 1+self.epsilon:
+                        continue
+                    if vminpos[i] < -self.epsilon:
+                        vminpos[i] = 0
+                        mincap = 0
                     if vmaxpos[i] < -self.epsilon:
                         continue
                     if vmaxpos[i] > 1+self.epsilon:
-- 
2.43.0


From 4756a20f586aad962ee4ebf1ae79bd31d51e2cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 077/115] fix: rects exceeding the graph on both sides or with
 reversed axes

---
 pyx/graph/style.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 9a594d9..eb8b6b8 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -963,17 +963,19 @@ class rect(_keygraphstyle):
         xvmax = sharedata.vrange[0][1]
         yvmin = sharedata.vrange[1][0]
         yvmax = sharedata.vrange[1][1]
-        if (xvmin is not None and xvmin < 1 and
-            xvmax is not None and xvmax > 0 and
-            yvmin is not None and yvmin < 1 and
-            yvmax is not None and yvmax > 0):
+        if None in (xvmin, xvmax, yvmin, yvmax):
+            return
+        # the ranges are in descending order for reversed axes
+        xvmin, xvmax = min(xvmin, xvmax), max(xvmin, xvmax)
+        yvmin, yvmax = min(yvmin, yvmax), max(yvmin, yvmax)
+        if xvmin < 1 and xvmax > 0 and yvmin < 1 and yvmax > 0:
             if xvmin < 0:
                 xvmin = 0
-            elif xvmax > 1:
+            if xvmax > 1:
                 xvmax = 1
             if yvmin < 0:
                 yvmin = 0
-            elif yvmax > 1:
+            if yvmax > 1:
                 yvmax = 1
             p = graph.vgeodesic(xvmin, yvmin, xvmax, yvmin)
             p.append(graph.vgeodesic_el(xvmax, yvmin, xvmax, yvmax))
-- 
2.43.0


From 6db9c8f43fbfbf67882e3e09798fd5401a928f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 078/115] fix: histogram bins beginning at the boundary of the
 graph up to rounding

---
 pyx/graph/style.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index eb8b6b8..bf9168b 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1086,17 +1086,17 @@ class histogram(_style):
                 logger.warning("cut at graph boundary adds artificial lines to fillable step histogram path")
         if self.fillable or (-self.epsilon < vvalue < 1+self.epsilon):
             vpos1cut = 0
-            if vpos1 < 0:
+            if vpos1 < -self.epsilon:
                 vpos1 = 0
                 vpos1cut = -1
-            elif vpos1 > 1:
+            elif vpos1 > 1+self.epsilon:
                 vpos1 = 1
                 vpos1cut = 1
             vpos2cut = 0
-            if vpos2 < 0:
+            if vpos2 < -self.epsilon:
                 vpos2 = 0
                 vpos2cut = -1
-            elif vpos2 > 1:
+            elif vpos2 > 1+self.epsilon:
                 vpos2 = 1
                 vpos2cut = 1
             if abs(vpos1cut + vpos2cut) <= 1:
-- 
2.43.0


From 6a2e926f4dc0ff61db8469ed1ea218f53b81c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:49 +0000
Subject: [PATCH 079/115] fix: empty comment lines between the column names and
 the data of a data file

---
 pyx/graph/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 81f2582..6ba3bdc 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -295,7 +295,8 @@ class file(data):
                 line = line.strip()
                 match = commentpattern.match(line)
                 if match:
-                    if not len(columndata):
+                    # an empty comment line does not hide column names
+                    if not len(columndata) and line[match.end():]:
                         columns = self.splitline(line[match.end():], stringpattern, columnpattern, tofloat=0)
                 else:
                     linedata = []
-- 
2.43.0


From c745630af3cfb34004c7014f8db2dd00acac2467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:49 +0000
Subject: [PATCH 080/115] fix: skiptail for data files when only every n-th
 line is taken

---
 pyx/graph/data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 6ba3bdc..07cd0a8 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -309,9 +309,8 @@ class file(data):
                                 maxcolumns = len(linedata)
                             columndata.append(linedata)
                         linenumber += 1
-            if skiptail >= every:
-                skip, x = divmod(skiptail, every)
-                del columndata[-skip:]
+            while columndata and columndata[-1][0] > linenumber - skiptail:
+                del columndata[-1]
             for i in range(len(columndata)):
                 if len(columndata[i]) != maxcolumns:
                     columndata[i].extend([None]*(maxcolumns-len(columndata[i])))
-- 
2.43.0


From 0f3fe420c3679c4272293feca707399b9ec529a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:49 +0000
Subject: [PATCH 081/115] fix: data sets without any points

---
 pyx/graph/data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 07cd0a8..5968f78 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -142,6 +142,7 @@ class points(_data):
                 self.columndata = [list(range(1, len(points) + 1))] + self.columndata
             self.columns = dict([(key, self.columndata[i]) for key, i in list(columns.items())])
         else:
+            self.columndata = []
             self.columns = dict([(key, []) for key, i in list(columns.items())])
         self.columnnames = list(self.columns.keys())
         self.title = title
@@ -181,6 +182,11 @@ class data(_data):
                 # search in the columndata list
                 try:
                     self.columns[columnname] = self.orgdata.columndata[value]
+                except IndexError:
+                    if self.orgdata.columndata:
+                        raise
+                    # there are no points at all
+                    self.columns[columnname] = []
                 except (AttributeError, TypeError):
                     # value was not an valid column identifier
                     # i.e. take it as a mathematical expression
@@ -315,7 +321,7 @@ class file(data):
                 if len(columndata[i]) != maxcolumns:
                     columndata[i].extend([None]*(maxcolumns-len(columndata[i])))
             return points(columndata, title=title, addlinenumbers=0,
-                          **dict([(column, i+1) for i, column in enumerate(columns[:maxcolumns-1])]))
+                          **dict([(column, i+1) for i, column in enumerate(columns[:maxcolumns-1] if columndata else columns)]))
 
         try:
             filename.readlines
-- 
2.43.0


From ab7343f2d842a239cb20c9495bf902c3826ca901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:49 +0000
Subject: [PATCH 082/115] fix: config files where an option first occurs after
 the first section

---
 pyx/graph/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 5968f78..ff145b0 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -376,6 +376,8 @@ class conffile(data):
                     else:
                         point[index] = value
                 columndata[i] = point
+            for point in columndata:
+                point.extend([None]*(maxcolumns-len(point)))
             # wrap result into a data instance to remove column numbers
             result = data(points(columndata, addlinenumbers=0, **columns), title=title)
             # ... but reinsert sections as linenumbers
-- 
2.43.0


From c7bf2bf5e8fdd583ebb84957cc287def3e26eb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 083/115] fix: reading cbd files

---
 pyx/graph/data.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index ff145b0..c378bcc 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -443,21 +443,21 @@ class cbdfile(data):
                 oln, olt = self.orgx, self.orgy
                 self.points = [(olt, oln)]
                 for i in range(self.nstrokes):
-                    c1, c2 = struct.unpack("2c", file.read(2))
-                    if ord(c2) & 0x40:
-                        if c1 > "\177":
-                            dy = ord(c1) - 256
+                    c1, c2 = file.read(2)
+                    if c2 & 0x40:
+                        if c1 > 127:
+                            dy = c1 - 256
                         else:
-                            dy = ord(c1)
-                        if c2 > "\177":
-                            dx = ord(c2) - 256
+                            dy = c1
+                        if c2 > 127:
+                            dx = c2 - 256
                         else:
-                            dx = ord(c2) - 64
+                            dx = c2 - 64
                     else:
-                        c3, c4, c5, c6, c7, c8 = struct.unpack("6c", file.read(6))
-                        if c2 > "\177":
-                            c2 = chr(ord(c2) | 0x40)
-                        dx, dy = struct.unpack("<2i", c3+c4+c1+c2+c7+c8+c5+c6)
+                        c3, c4, c5, c6, c7, c8 = file.read(6)
+                        if c2 > 127:
+                            c2 = c2 | 0x40
+                        dx, dy = struct.unpack("<2i", bytes([c3, c4, c1, c2, c7, c8, c5, c6]))
                     oln += dx
                     olt += dy
                     self.points.append((olt, oln))
-- 
2.43.0


From 87d12b3341ca7271c36ce0a333f508ac2bc4b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:41 +0000
Subject: [PATCH 084/115] fix: bounding boxes in the trailer of EPS files

---
 pyx/epsfile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index f855fe6..e248217 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -102,7 +102,7 @@ class linefilereader:
             if EOFmsg is not None and not len(self.buffer):
                 raise IOError(EOFmsg)
             result = self.buffer
-            self.buffer = ""
+            self.buffer = b""
             return result
 
     def readline(self, EOFmsg="unexpected end of file"):
@@ -152,7 +152,7 @@ def _readbbox(file):
             break
         if line.startswith(b"%%BoundingBox:") and not bboxatend:
             values = line.split(b":", 1)[1].split()
-            if values == ["(atend)"]:
+            if values == [b"(atend)"]:
                 bboxatend = 1
             else:
                 if len(values) != 4:
@@ -170,7 +170,7 @@ def _readbbox(file):
     while True:
         line = file.readline()
         if line.startswith(b"%%BeginData:"):
-            values = line.split(":", 1)[1].split()
+            values = line.split(b":", 1)[1].split()
             if len(values) > 3:
                 raise IOError("invalid number of arguments")
             if len(values) == 3:
@@ -185,12 +185,12 @@ def _readbbox(file):
                 file.read(int(values[0]))
             line = file.readline()
             # ignore tailing whitespace/newline for binary data
-            if (len(values) < 3 or values[2] != "Lines") and not len(line.strip()):
+            if (len(values) < 3 or values[2] != b"Lines") and not len(line.strip()):
                 line = file.readline()
             if line.rstrip() != b"%%EndData":
                 raise IOError("missing EndData")
         elif line.startswith(b"%%BeginBinary:"):
-            file.read(int(line.split(":", 1)[1]))
+            file.read(int(line.split(b":", 1)[1]))
             line = file.readline()
             # ignore tailing whitespace/newline
             if not len(line.strip()):
@@ -211,7 +211,7 @@ def _readbbox(file):
     line = True
     while line:
         line = file.readline(EOFmsg=None)
-        if line.startswith("%%BoundingBox:"):
+        if line.startswith(b"%%BoundingBox:"):
             values = line.split(b":", 1)[1].split()
             if len(values) != 4:
                 raise IOError("invalid number of bounding box values")
-- 
2.43.0


From c2c10f7af5f194bb818002ed5226e61eda41876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 085/115] fix: end of the header comments of EPS files

---
 pyx/epsfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index e248217..884b969 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -20,7 +20,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import logging, os, string, tempfile
+import logging, os, tempfile
 from . import baseclasses, bbox, config, unit, trafo, pswriter
 
 logger = logging.getLogger("pyx")
@@ -159,7 +159,7 @@ def _readbbox(file):
                     raise IOError("invalid number of bounding box values")
                 return bbox.bbox_pt(*list(map(int, values)))
         elif (line.rstrip() == b"%%EndComments" or
-              (len(line) >= 2 and chr(line[0]) != "%" and chr(line[1]) not in string.whitespace)):
+              (line.strip() and not line.startswith(b"%"))):
             # implicit end of comments section
             break
     if not bboxatend:
-- 
2.43.0


From 28a8425c7a162e9622548af3ff8f52e3ca0a2600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 086/115] fix: numbers with a trailing decimal point in SVG
 files

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 0f956f9..39fb212 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -83,7 +83,7 @@ class svgValueError(ValueError): pass
 
 class _marker: pass
 
-_svgFloatPattern = re.compile(r"(?P<value>[-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
+_svgFloatPattern = re.compile(r"(?P<value>[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
 _svgBoolPattern = re.compile(r"(?P<bool>[01])\s*,?\s*")
 _svgPathPattern = re.compile(r"(?P<cmd>[mlhvcsqtaz])\s*(?P<args>(([^mlhvcsqtaz]|pt|pc|mm|cm)*))", re.IGNORECASE)
 _svgColorAbsPattern = re.compile(r"rgb\(\s*(?P<red>[0-9]+)\s*,\s*(?P<green>[0-9]+)\s*,\s*(?P<blue>[0-9]+)\s*\)$", re.IGNORECASE)
-- 
2.43.0


From fba3925e38e71eff04b0732f262a200bd955b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 087/115] fix: rotation of elliptical arcs in SVG files

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 39fb212..57ad854 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -223,7 +223,7 @@ class svgHandler(svgBaseHandler):
                         while args:
                             rx, args = self.toFloat(args)
                             ry, args = self.toFloat(args)
-                            phi, args = self.toFloat(args)
+                            phi, args = self.toFloat(args, units=False)
                             fA, args = self.toBool(args)
                             fS, args = self.toBool(args)
                             x2, args = self.toFloat(args)
-- 
2.43.0


From f1ad3dd03b733454330edf2cb664ef7e4aab56aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 088/115] fix: elliptical arcs without extent in SVG files

---
 pyx/svgfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 57ad854..16ce911 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -232,7 +232,8 @@ class svgHandler(svgBaseHandler):
                             if cmd == "a":
                                 x2 += x1
                                 y2 += y1
-                            p.join(endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi))
+                            if (x1, y1) != (x2, y2):
+                                p.join(endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi))
                 else:
                     assert cmd in "zZ"
                     p.append(path.closepath())
-- 
2.43.0


From d4fc61ee11a64fdab70a8925bf43208bd3858998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 089/115] fix: matrix and skew transformations in SVG files

---
 pyx/svgfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 16ce911..a6590a8 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -253,7 +253,7 @@ class svgHandler(svgBaseHandler):
                 d, args = self.toFloat(args, units=False)
                 e, args = self.toFloat(args)
                 f = self.toFloat(args, single=True)
-                t = t * trafo.trafo_pt(((a, b), (c, d)), (e, f))
+                t = trafo.trafo_pt(((a, c), (b, d)), (e, f)) * t
             elif cmd == "translate":
                 args = list(self.toFloats(args))
                 if len(args) == 1:
@@ -275,10 +275,10 @@ class svgHandler(svgBaseHandler):
                     b, c = 0, 0
                 t = t.rotated_pt(a, b, c)
             elif cmd == "skewX":
-                t = t * trafo.trafo_pt(((1, math.tan(self.toFloat(args, units=False, single=True)*math.pi/180)), (0, 1)))
+                t = trafo.trafo_pt(((1, math.tan(self.toFloat(args, units=False, single=True)*math.pi/180)), (0, 1))) * t
             else:
                 assert cmd == "skewY"
-                t = t * trafo.trafo_pt(((1, 0), (math.tan(self.toFloat(args, units=False, single=True)*math.pi/180), 1)))
+                t = trafo.trafo_pt(((1, 0), (math.tan(self.toFloat(args, units=False, single=True)*math.pi/180), 1))) * t
         return t
 
     def toColor(self, name, inherit):
-- 
2.43.0


From 67d173095f0d1f7625535d16b29028dc1e26ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 090/115] fix: white space within transformations in SVG files

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index a6590a8..99f9b9d 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -243,7 +243,7 @@ class svgHandler(svgBaseHandler):
 
     def toTrafo(self, svgTrafo):
         t = trafo.identity
-        for match in reversed(list(re.finditer(r"(?P<cmd>matrix|translate|scale|rotate|skewX|skewY)\((?P<args>[^)]*)\)", svgTrafo))):
+        for match in reversed(list(re.finditer(r"(?P<cmd>matrix|translate|scale|rotate|skewX|skewY)\s*\(\s*(?P<args>[^)]*)\)", svgTrafo))):
             cmd = match.group("cmd")
             args = match.group("args")
             if cmd == "matrix":
-- 
2.43.0


From 4b5d192375a9e12b796371fcc2e324f7fa131221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 091/115] fix: smooth curves after other path commands in SVG
 files

---
 pyx/svgfile.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 99f9b9d..203aaaf 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -145,6 +145,7 @@ class svgHandler(svgBaseHandler):
     def toPath(self, svgPath):
         # Note: all lengths are _pt, but _pt has been skipped to prevent clumsy notation
         p = path.path()
+        prevcmd = "m"
         for match in _svgPathPattern.finditer(svgPath):
             cmd = match.group("cmd")
             args = match.group("args")
@@ -177,20 +178,21 @@ class svgHandler(svgBaseHandler):
                             x1, y1, x2, y2, x3, y3, *args = args
                         else:
                             x2, y2, x3, y3, *args = args
-                            if isinstance(p[-1], path.curveto_pt):
+                            if prevcmd not in "CcSs":
+                                x1, y1 = 0, 0
+                            elif isinstance(p[-1], path.curveto_pt):
                                 x1 = p[-1].x3_pt - p[-1].x2_pt
                                 y1 = p[-1].y3_pt - p[-1].y2_pt
-                            elif isinstance(p[-1], path.rcurveto_pt):
+                            else:
                                 x1 = p[-1].dx3_pt - p[-1].dx2_pt
                                 y1 = p[-1].dy3_pt - p[-1].dy2_pt
-                            else:
-                                x1, y1 = 0, 0
                             if cmd == "S":
                                 x0, y0 = p.atend_pt()
                                 x1 += x0
                                 y1 += y0
                         p.append(path.curveto_pt(x1, y1, x2, y2, x3, y3) if cmd.isupper() else
                                  path.rcurveto_pt(x1, y1, x2, y2, x3, y3))
+                        prevcmd = cmd
                 elif cmd in "QqTt":
                     while args:
                         x0, y0 = p.atend_pt()
@@ -206,19 +208,17 @@ class svgHandler(svgBaseHandler):
                             if cmd == "t":
                                 x3 += x0
                                 y3 += y0
-                            if isinstance(p[-1], path.curveto_pt):
+                            if prevcmd in "QqTt":
                                 xq = x0 + 3/2 * (p[-1].x3_pt - p[-1].x2_pt)
                                 yq = y0 + 3/2 * (p[-1].y3_pt - p[-1].y2_pt)
-                            elif isinstance(p[-1], path.rcurveto_pt):
-                                xq = x0 + 3/2 * (p[-1].dx3_pt - p[-1].dx2_pt)
-                                yq = y0 + 3/2 * (p[-1].dy3_pt - p[-1].dy2_pt)
                             else:
-                                xq, yq = p.atend_pt()
+                                xq, yq = x0, y0
                         x1 = x0 + 2/3 * (xq - x0)
                         y1 = y0 + 2/3 * (yq - y0)
                         x2 = x3 + 2/3 * (xq - x3)
                         y2 = y3 + 2/3 * (yq - y3)
                         p.append(path.curveto_pt(x1, y1, x2, y2, x3, y3))
+                        prevcmd = cmd
                 elif cmd in "aA":
                         while args:
                             rx, args = self.toFloat(args)
@@ -237,6 +237,7 @@ class svgHandler(svgBaseHandler):
                 else:
                     assert cmd in "zZ"
                     p.append(path.closepath())
+                prevcmd = cmd
             except svgValueError:
                 pass
         return p
-- 
2.43.0


From c57f532cb8bd8d52c847b6d64c84015696529c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:49 +0000
Subject: [PATCH 092/115] fix: subpaths continuing at or closing without extent
 in SVG files

---
 pyx/svgfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 203aaaf..956aba2 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -150,6 +150,9 @@ class svgHandler(svgBaseHandler):
             cmd = match.group("cmd")
             args = match.group("args")
             try:
+                if cmd not in "MmZz" and p and isinstance(p[-1], path.closepath):
+                    # the next subpath starts where the closed one did
+                    p.append(path.moveto_pt(*p.atend_pt()))
                 if cmd not in "aA":
                     args = self.toFloats(args)
                 if cmd in "MmLl":
@@ -236,7 +239,9 @@ class svgHandler(svgBaseHandler):
                                 p.join(endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi))
                 else:
                     assert cmd in "zZ"
-                    p.append(path.closepath())
+                    # subpaths without extent cannot be closed
+                    if not isinstance(p[-1], path.closepath) and p.normpath().normsubpaths[-1].normsubpathitems:
+                        p.append(path.closepath())
                 prevcmd = cmd
             except svgValueError:
                 pass
-- 
2.43.0


From a06e17af16e64700fde57f941167631c4be77487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:06 +0000
Subject: [PATCH 093/115] fix: curves in front of elliptical arcs in SVG files

---
 pyx/svgfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 956aba2..9191170 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -236,7 +236,9 @@ class svgHandler(svgBaseHandler):
                                 x2 += x1
                                 y2 += y1
                             if (x1, y1) != (x2, y2):
-                                p.join(endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi))
+                                arc = endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi)
+                                for pathitem in arc.normpath().path()[1:]:
+                                    p.append(pathitem)
                 else:
                     assert cmd in "zZ"
                     # subpaths without extent cannot be closed
-- 
2.43.0


From ba9306636316256662058a4f0f5f8120804aa63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 094/115] fix: inherited stroke and fill properties in SVG
 files

---
 pyx/svgfile.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 9191170..2be09cb 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -365,6 +365,9 @@ class svgHandler(svgBaseHandler):
                 except KeyError:
                     return default
 
+        def given(localname):
+            return attributes.get((None, localname), "inherit") != "inherit"
+
         def pathAttrs(default=_marker):
             if default is not _marker:
                 attrs = default
@@ -372,23 +375,23 @@ class svgHandler(svgBaseHandler):
                 attrs = []
             if (None, "transform") in attributes:
                 attrs.append(self.toTrafo(attributes[None, "transform"]))
-            if (None, "stroke-dasharray") in attributes:
+            if given("stroke-dasharray"):
                 attrs.append(style.dash(self.toFloats(attributes[None, "stroke-dasharray"]),
                                         offset=floatAttr("stroke-dashoffset", 0),
                                         rellengths=False))
-            if (None, "stroke-linecap") in attributes:
+            if given("stroke-linecap"):
                 attrs.append({"butt": style.linecap.butt,
                               "round": style.linecap.round,
                               "square": style.linecap.square}[attributes[None, "stroke-linecap"]])
-            if (None, "stroke-linejoin") in attributes:
+            if given("stroke-linejoin"):
                 attrs.append({"miter": style.linejoin.miter,
                               "round": style.linejoin.round,
                               "bevel": style.linejoin.bevel}[attributes[None, "stroke-linejoin"]])
-            if (None, "stroke-miterlimit") in attributes:
+            if given("stroke-miterlimit"):
                 attrs.append(style.miterlimit(floatAttr("stroke-miterlimit")))
-            if (None, "stroke-width") in attributes:
+            if given("stroke-width"):
                 attrs.append(style.linewidth(floatAttr("stroke-width")*unit.t_pt))
-            if (None, "fill-rule") in attributes:
+            if given("fill-rule"):
                 attrs.append({"nonzero": style.fillrule.nonzero_winding,
                               "evenodd": style.fillrule.even_odd}[attributes[None, "fill-rule"]])
             return attrs
-- 
2.43.0


From 7d5bf9365c64d9c34b7d9741fcf77f9458a9badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 095/115] fix: dash arrays in SVG files

---
 pyx/svgfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 2be09cb..9706234 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -376,7 +376,10 @@ class svgHandler(svgBaseHandler):
             if (None, "transform") in attributes:
                 attrs.append(self.toTrafo(attributes[None, "transform"]))
             if given("stroke-dasharray"):
-                attrs.append(style.dash(self.toFloats(attributes[None, "stroke-dasharray"]),
+                pattern = []
+                if attributes[None, "stroke-dasharray"].strip() != "none":
+                    pattern = list(self.toFloats(attributes[None, "stroke-dasharray"]))
+                attrs.append(style.dash(pattern,
                                         offset=floatAttr("stroke-dashoffset", 0),
                                         rellengths=False))
             if given("stroke-linecap"):
-- 
2.43.0


From d1e3cf2e84a6cf39fc9d3323401782439fcd0543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 096/115] fix: miter limits in SVG files

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 9706234..404d74b 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -391,7 +391,7 @@ class svgHandler(svgBaseHandler):
                               "round": style.linejoin.round,
                               "bevel": style.linejoin.bevel}[attributes[None, "stroke-linejoin"]])
             if given("stroke-miterlimit"):
-                attrs.append(style.miterlimit(floatAttr("stroke-miterlimit")))
+                attrs.append(style.miterlimit(self.toFloat(attributes[None, "stroke-miterlimit"], units=False)[0]))
             if given("stroke-width"):
                 attrs.append(style.linewidth(floatAttr("stroke-width")*unit.t_pt))
             if given("fill-rule"):
-- 
2.43.0


From c9e442d3bb40c961a754ca0145618e9cfa306ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 097/115] fix: default stroke width in SVG files

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 404d74b..95cf8ea 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -402,7 +402,7 @@ class svgHandler(svgBaseHandler):
         namespace, localname = name
         if namespace == "http://www.w3.org/2000/svg":
             if localname == "svg":
-                attrs = pathAttrs([style.linewidth(1*unit.t_pt), style.miterlimit(4)])
+                attrs = pathAttrs([style.linewidth(self.units[""]*unit.t_pt), style.miterlimit(4)])
                 outer_x = self.toFloat(attributes.get((None, "x"), "0"), single=True)
                 outer_y = self.toFloat(attributes.get((None, "y"), "0"), single=True)
                 if (None, "viewBox") in attributes:
-- 
2.43.0


From 75075712d828eff1ac45e183ff1f00e30211fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 098/115] fix: clipping at the view box of SVG files

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 95cf8ea..c0a8868 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -408,7 +408,7 @@ class svgHandler(svgBaseHandler):
                 if (None, "viewBox") in attributes:
                     inner_x, inner_y, inner_width, inner_height = self.toFloats(attributes[None, "viewBox"])
                     if attributes.get((None, "clip"), "auto") == "auto":
-                        attrs.append(canvas.clip(path.rect(inner_x, inner_y, inner_width, inner_height)))
+                        attrs.append(canvas.clip(path.rect_pt(inner_x, inner_y, inner_width, inner_height)))
                     outer_width = self.toFloat(attributes.get((None, "width"), "100%"), single=True, relative=inner_width)
                     outer_height = self.toFloat(attributes.get((None, "height"), "100%"), single=True, relative=inner_height)
                     self.bbox = bbox.bbox_pt(outer_x, -outer_y, outer_x+outer_width, -outer_y+outer_height)
-- 
2.43.0


From ba19e91f6886e851e3f37d2c1487331ad6ead917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 099/115] fix: fill and stroke of the svg element in SVG files

---
 pyx/svgfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index c0a8868..2c39171 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -427,6 +427,8 @@ class svgHandler(svgBaseHandler):
                     raise ValueError("SVG viewbox or width and height missing, we continue by aligning by SVG coordinates (top-left) instead of PyX-like (bottom-left) and calculate the bbox from the SVG content")
                 attrs.append(trafo.mirror(0))
                 self.canvas = canvas.canvas(attrs)
+                self.fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
+                self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname == "g":
                 self.stack.append((self.canvas, self.stroke, self.fill))
                 self.canvas = self.canvas.insert(canvas.canvas(pathAttrs()))
-- 
2.43.0


From 0e7e1c55669362a1332a25d2ce5f671bfb3453d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 100/115] fix: rectangles without a rounding in one direction
 in SVG files

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 2c39171..cd1dbae 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -444,7 +444,7 @@ class svgHandler(svgBaseHandler):
                         p = None
                     else:
                         rx, ry = floatAttr("rx", None), floatAttr("ry", None)
-                        if ((rx is None or rx < 1e-10) and (ry is None or ry < 1e-10)):
+                        if (rx is None and ry is None) or (rx is not None and rx < 1e-10) or (ry is not None and ry < 1e-10):
                             p = path.rect_pt(x, y, width, height)
                         else:
                             if rx is None: rx = ry
-- 
2.43.0


From e807f6029b1a70c742227cb636e1527281b7f6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:07 +0000
Subject: [PATCH 101/115] fix: dash offsets set apart from the dash array in
 SVG files

---
 pyx/svgfile.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index cd1dbae..5f1cd1b 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -135,6 +135,7 @@ class svgHandler(svgBaseHandler):
         self.stack = []
         self.stroke = None
         self.fill = color.grey.black
+        self.dash = [], 0
 
     def toBool(self, arg):
         match = _svgBoolPattern.match(arg)
@@ -368,6 +369,16 @@ class svgHandler(svgBaseHandler):
         def given(localname):
             return attributes.get((None, localname), "inherit") != "inherit"
 
+        def dash():
+            pattern, offset = self.dash
+            if given("stroke-dasharray"):
+                pattern = []
+                if attributes[None, "stroke-dasharray"].strip() != "none":
+                    pattern = list(self.toFloats(attributes[None, "stroke-dasharray"]))
+            if given("stroke-dashoffset"):
+                offset = floatAttr("stroke-dashoffset")
+            return pattern, offset
+
         def pathAttrs(default=_marker):
             if default is not _marker:
                 attrs = default
@@ -375,13 +386,9 @@ class svgHandler(svgBaseHandler):
                 attrs = []
             if (None, "transform") in attributes:
                 attrs.append(self.toTrafo(attributes[None, "transform"]))
-            if given("stroke-dasharray"):
-                pattern = []
-                if attributes[None, "stroke-dasharray"].strip() != "none":
-                    pattern = list(self.toFloats(attributes[None, "stroke-dasharray"]))
-                attrs.append(style.dash(pattern,
-                                        offset=floatAttr("stroke-dashoffset", 0),
-                                        rellengths=False))
+            if given("stroke-dasharray") or given("stroke-dashoffset"):
+                pattern, offset = dash()
+                attrs.append(style.dash(pattern, offset=offset, rellengths=False))
             if given("stroke-linecap"):
                 attrs.append({"butt": style.linecap.butt,
                               "round": style.linecap.round,
@@ -427,11 +434,13 @@ class svgHandler(svgBaseHandler):
                     raise ValueError("SVG viewbox or width and height missing, we continue by aligning by SVG coordinates (top-left) instead of PyX-like (bottom-left) and calculate the bbox from the SVG content")
                 attrs.append(trafo.mirror(0))
                 self.canvas = canvas.canvas(attrs)
+                self.dash = dash()
                 self.fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
                 self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname == "g":
-                self.stack.append((self.canvas, self.stroke, self.fill))
+                self.stack.append((self.canvas, self.stroke, self.fill, self.dash))
                 self.canvas = self.canvas.insert(canvas.canvas(pathAttrs()))
+                self.dash = dash()
                 self.fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
                 self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname in ["rect", "circle", "ellipse", "line", "polyline", "polygon", "path"]:
@@ -494,7 +503,7 @@ class svgHandler(svgBaseHandler):
         namespace, localname = name
         if namespace == "http://www.w3.org/2000/svg":
             if localname == "g":
-                self.canvas, self.stroke, self.fill = self.stack.pop()
+                self.canvas, self.stroke, self.fill, self.dash = self.stack.pop()
 
 class svgBboxDoneException(Exception): pass
 
-- 
2.43.0


From 3aa24ed12607d790ea3c374e6c7eaa54e3941544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:07 +0000
Subject: [PATCH 102/115] fix: strokes of transformed shapes in SVG files

---
 pyx/svgfile.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 5f1cd1b..1a1f039 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -379,13 +379,16 @@ class svgHandler(svgBaseHandler):
                 offset = floatAttr("stroke-dashoffset")
             return pattern, offset
 
+        def trafoAttrs():
+            if (None, "transform") in attributes:
+                return [self.toTrafo(attributes[None, "transform"])]
+            return []
+
         def pathAttrs(default=_marker):
             if default is not _marker:
                 attrs = default
             else:
                 attrs = []
-            if (None, "transform") in attributes:
-                attrs.append(self.toTrafo(attributes[None, "transform"]))
             if given("stroke-dasharray") or given("stroke-dashoffset"):
                 pattern, offset = dash()
                 attrs.append(style.dash(pattern, offset=offset, rellengths=False))
@@ -439,7 +442,7 @@ class svgHandler(svgBaseHandler):
                 self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname == "g":
                 self.stack.append((self.canvas, self.stroke, self.fill, self.dash))
-                self.canvas = self.canvas.insert(canvas.canvas(pathAttrs()))
+                self.canvas = self.canvas.insert(canvas.canvas(trafoAttrs() + pathAttrs()))
                 self.dash = dash()
                 self.fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
                 self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
@@ -497,7 +500,9 @@ class svgHandler(svgBaseHandler):
                     if stroke:
                         attrs.append(deco.stroked([stroke]))
                     if stroke or fill:
-                        self.canvas.draw(p, attrs)
+                        # the transformation applies to the stroke too
+                        c = self.canvas.insert(canvas.canvas(trafoAttrs()))
+                        c.draw(p, attrs)
 
     def endElementNS(self, name, qname):
         namespace, localname = name
-- 
2.43.0


From 41dfc2c92c8e104cfd05b6717b082954cb0afd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:07 +0000
Subject: [PATCH 103/115] fix: polygons with less than two points in SVG files

---
 pyx/svgfile.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 1a1f039..bd769b2 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -481,13 +481,17 @@ class svgHandler(svgBaseHandler):
                     else:
                         p = None
                 elif localname == "polyline" or localname == "polygon":
-                    x, y, *args = self.toFloats(attributes[None, "points"])
-                    p = path.path(path.moveto_pt(x, y))
-                    while len(args) >= 2:
+                    args = list(self.toFloats(attributes[None, "points"]))
+                    if len(args) < 4:
+                        p = None
+                    else:
                         x, y, *args = args
-                        p.append(path.lineto_pt(x, y))
-                    if localname == "polygon":
-                        p.append(path.closepath())
+                        p = path.path(path.moveto_pt(x, y))
+                        while len(args) >= 2:
+                            x, y, *args = args
+                            p.append(path.lineto_pt(x, y))
+                        if localname == "polygon":
+                            p.append(path.closepath())
                 else:
                     assert localname == "path"
                     p = self.toPath(attributes[None, "d"])
-- 
2.43.0


From 37c1e535eaaed1320586f99e085928675be0a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:20 +0000
Subject: [PATCH 104/115] fix: frames of graph keys without entries

---
 pyx/graph/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/key.py b/pyx/graph/key.py
index 92ea984..3e98064 100644
--- a/pyx/graph/key.py
+++ b/pyx/graph/key.py
@@ -106,7 +106,7 @@ class key:
             c.insert(subc, [trafo.translate_pt(x_pt, 0)])
             x_pt += unit.topt(subc.bbox().width()) + columndist_pt
             del plotitems[:itemspercolumn]
-        if self.keyattrs is not None:
+        if self.keyattrs is not None and c.bbox():
             newc = canvas.canvas()
             newc.draw(c.bbox().enlarged(self.border).path(), self.keyattrs)
             newc.insert(c)
-- 
2.43.0


From 08ceab876d85d041e25a863d5c4719cc8e2c3e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:15 +0000
Subject: [PATCH 105/115] fix: comments in bytes read token by token

---
 pyx/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/reader.py b/pyx/reader.py
index 3718d07..42d335e 100644
--- a/pyx/reader.py
+++ b/pyx/reader.py
@@ -135,7 +135,8 @@ class PStokenizer:
         while self.data[self.pos] in self.tokenseps:
             self.pos += 1
         # ignore comments including subsequent whitespace characters
-        while self.data[self.pos] == self.commentchar:
+        # (slices, since items of bytes are integers)
+        while self.data[self.pos:self.pos+1] == self.commentchar:
             while self.data[self.pos] not in self.newlinechars:
                 self.pos += 1
             while self.data[self.pos] in self.tokenseps:
-- 
2.43.0


From 7594e0b60137410c862571780872a7ade536ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:15 +0000
Subject: [PATCH 106/115] fix: last token of the data without separator behind
 it

---
 pyx/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/reader.py b/pyx/reader.py
index 42d335e..76aebdc 100644
--- a/pyx/reader.py
+++ b/pyx/reader.py
@@ -142,13 +142,13 @@ class PStokenizer:
             while self.data[self.pos] in self.tokenseps:
                 self.pos += 1
         startpos = self.pos
-        while self.data[self.pos] not in self.tokenseps:
+        while self.pos < len(self.data) and self.data[self.pos] not in self.tokenseps:
             # any character in self.tokenstarts ends the token
             if self.pos>startpos and self.data[self.pos] in self.tokenstarts:
                 break
             self.pos += 1
         result = self.data[startpos:self.pos]
-        if self.data[self.pos] in self.tokenseps:
+        if self.pos < len(self.data) and self.data[self.pos] in self.tokenseps:
             self.pos += 1 # consume a single tokensep
         return result
 
-- 
2.43.0


From 7704732f0a3d6e1d96e525a8300f71d58b51173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:45 +0000
Subject: [PATCH 107/115] fix: local files are opened by each of their possible
 names

---
 pyx/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/config.py b/pyx/config.py
index 00272a9..ff6c345 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -86,7 +86,7 @@ class local:
     """locates files in the current directory"""
 
     def openers(self, filename, formats):
-        return [lambda: builtinopen(full_filename, "rb") for full_filename in full_filenames(filename, formats)]
+        return [lambda full_filename=full_filename: builtinopen(full_filename, "rb") for full_filename in full_filenames(filename, formats)]
 
 locator_classes["local"] = local
 
-- 
2.43.0


From b49f3f5a23cfc88299b17dc96f50a686b3b767ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:45 +0000
Subject: [PATCH 108/115] fix: files of directories searched later do not
 replace files of the same name

---
 pyx/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/config.py b/pyx/config.py
index ff6c345..16749dc 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -129,7 +129,8 @@ class recursivedir:
                 if os.path.isdir(full_item):
                     self.dirs.insert(0, full_item)
                 else:
-                    self.path_cache[item] = full_item
+                    # the first file of a name in the order of the directories
+                    self.path_cache.setdefault(item, full_item)
                     if item in filenames:
                         found = item
             if found:
-- 
2.43.0


From 817605d94ed4cd4185b35ea167ca1ccf03d23e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:45 +0000
Subject: [PATCH 109/115] fix: files located by locate

---
 pyx/config.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index 16749dc..fea7d11 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -273,14 +273,16 @@ class locate:
 
     def openers(self, filename, formats):
         full_filename = None
-        for extension in extensions:
-            with Popen([self.locate, filename+extension], stdout=subprocess.PIPE).stdout as output:
-                with io.TextIOWrapper(output, encoding="ascii", errors="surrogateescape") as text_output:
-                    for line in text_output:
-                        line = line.rstrip()
-                        if os.path.basename(line) == filename+extension:
-                            full_filename = line
-                            break
+        for name in full_filenames(filename, formats):
+            try:
+                with Popen([self.locate, name], stdout=subprocess.PIPE) as process:
+                    with io.TextIOWrapper(process.stdout, encoding="ascii", errors="surrogateescape") as text_output:
+                        for line in text_output:
+                            line = line.rstrip()
+                            if full_filename is None and os.path.basename(line) == name:
+                                full_filename = line
+            except OSError:
+                return []
             if full_filename:
                 break
         else:
@@ -294,7 +296,7 @@ class locate:
             except IOError:
                 logger.warning("'%s' should be available at '%s' according to the locate, "
                             "but the file is not available at this location; "
-                            "update your locate database" % (filename+extension, full_filename))
+                            "update your locate database" % (name, full_filename))
         return [_opener]
 
 locator_classes["locate"] = locate
-- 
2.43.0


From 24708dcdc84ebb5e2e8466a70ee5de258291d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:44 +0000
Subject: [PATCH 110/115] fix: texts after a failed one show their own page

---
 pyx/text.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index fb36bb4..32abf88 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1241,10 +1241,12 @@ class SingleEngine:
         if self.needdvitextboxes:
             dvifilename = os.path.join(self.tmpdir, "texput.dvi")
             self.dvifile = dvifile.DVIfile(dvifilename, debug=self.dvitype)
-            page = 1
-            for box in self.needdvitextboxes:
-                box.readdvipage(self.dvifile, page)
-                page += 1
+            boxes = dict(self.needdvitextboxes)
+            for page in range(1, self.page + 1):
+                if page in boxes:
+                    boxes[page].readdvipage(self.dvifile, page)
+                else:
+                    self.dvifile.readpage(None) # skip the page of a failed text
         if self.dvifile is not None and self.dvifile.readpage(None) is not None:
             raise ValueError("end of dvifile expected but further pages follow")
         if cleanup:
@@ -1313,7 +1315,7 @@ class SingleEngine:
         if self.texipc:
             box.readdvipage(self.dvifile, self.page)
         else:
-            self.needdvitextboxes.append(box)
+            self.needdvitextboxes.append((self.page, box))
         return box
 
     def text(self, x, y, *args, **kwargs):
-- 
2.43.0


From 886f83dee0c2a73b99709f8eb1bfc3ab721a4de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:45 +0000
Subject: [PATCH 111/115] fix: refused preambles are not repeated at a restart
 of the text engine

---
 pyx/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index 32abf88..bfc6369 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1479,8 +1479,9 @@ class MultiEngine:
 
     def preamble(self, expr, texmessages=[]):
         "resembles :meth:`SingleEngine.preamble`"
-        self.preambles.append((expr, texmessages))
         self.instance.preamble(expr, texmessages)
+        # only those preambles are repeated, which have been accepted
+        self.preambles.append((expr, texmessages))
 
     @reset_for_tex_done
     def text_pt(self, *args, **kwargs):
-- 
2.43.0


From 71aa830ae1bd74211b81fbe63601c1812097d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 112/115] fix: box warnings do not hide error messages behind
 them

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index bfc6369..ccda23c 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -374,7 +374,7 @@ class texmessage:
             check.__qualname__ = qualname
         return check
 
-    box_warning = staticmethod(pattern.__func__(re.compile(r"^(Overfull|Underfull) \\[hv]box.*$(\n^..*$)*\n^$\n", re.MULTILINE),
+    box_warning = staticmethod(pattern.__func__(re.compile(r"^(Overfull|Underfull) \\[hv]box.*$(\n^(?!! )..*$)*\n^$\n", re.MULTILINE),
                                "overfull/underfull box", qualname="texmessage.box_warning"))
     font_warning = staticmethod(pattern.__func__(re.compile(r"^LaTeX Font Warning: .*$(\n^\(Font\).*$)*", re.MULTILINE),
                                 "font substitutions of NFSS", qualname="texmessage.font_warning"))
-- 
2.43.0


From 77540ab47cea68ecb9e9f2104b2929d730e13c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:10 +0000
Subject: [PATCH 113/115] fix: texmessage.load_graphics ignores several
 graphics files

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index ccda23c..4068a02 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -332,7 +332,7 @@ class texmessage:
             while m:
                 if not os.path.isfile(config.get("text", "chroot", "") + m.group("filename")):
                     return msg
-                r, m = remove_pattern(texmessage.quoted_file_pattern, r)
+                r, m = remove_pattern(p, r)
         return r
 
     @staticmethod
-- 
2.43.0


From 8e58c4d7e38b06edb4d5176abc9c3242c8abc097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:15 +0000
Subject: [PATCH 114/115] fix: axis painters draw no grid line for a label
 without a tick

---
 pyx/graph/axis/painter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/painter.py b/pyx/graph/axis/painter.py
index 8f55b0d..909ad90 100644
--- a/pyx/graph/axis/painter.py
+++ b/pyx/graph/axis/painter.py
@@ -236,7 +236,7 @@ class regular(_title):
                             canvas.extent_pt = outerticklength_pt
                         if -innerticklength_pt > canvas.extent_pt:
                             canvas.extent_pt = -innerticklength_pt
-            if self.gridattrs is not None:
+            if t.ticklevel is not None and self.gridattrs is not None:
                 gridattrs = attr.selectattrs(self.defaultgridattrs + self.gridattrs, t.ticklevel, maxticklevel)
                 if gridattrs is not None:
                     canvas.layer("grid").stroke(axispos.vgridpath(t.temp_v), gridattrs)
-- 
2.43.0


From 0b0beea682daf53d3e1e6da7979180840ea8abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:44 +0000
Subject: [PATCH 115/115] fix: graphxy.axisatv keeps the grid lines within the
 graph

---
 pyx/graph/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 6384a88..62dc82d 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -556,7 +556,8 @@ class graphxy(graph):
             t = trafo.translate_pt(0, self.ypos_pt + v*self.height_pt - axis.positioner.y1_pt)
         c = canvas.canvas()
         for layer, subcanvas in sorted(axis.canvas.layers.items()):
-            c.layer(layer).insert(subcanvas, [t])
+            # grid lines are bound to the graph, not to the position of the axis
+            c.layer(layer).insert(subcanvas, [t] if layer != "grid" else [])
         assert len(axis.canvas.layers) == len(axis.canvas.items), str(axis.canvas.items)
         axis.canvas = c
 
-- 
2.43.0

