From ecbd899806a04fc2feb14df37908844279a0c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 01/60] fix: words without a valid number no longer crash the
 parser

T without a number, a lone sign or dot as the value of an argument and a G4 P
without a number made loading any program containing them raise ValueError.
The P word of a dwell was also missed when written in lower case.
---
 gcodeutils/gcoder.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 5041308..3997aa2 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -27,10 +27,10 @@ import re
 gcode_parsed_args = ["x", "y", "e", "f", "z", "i", "j"]
 gcode_parsed_nonargs = ["g", "t", "m", "n"]
 to_parse = "".join(gcode_parsed_args + gcode_parsed_nonargs)
-gcode_exp = re.compile("\([^\(\)]*\)|^\(.*\)$|;.*|[/\*].*\n|([%s])([-+]?[0-9]*\.?[0-9]*)" % to_parse)
+gcode_exp = re.compile("\([^\(\)]*\)|^\(.*\)$|;.*|[/\*].*\n|([%s])((?:[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+))?)" % to_parse)
 gcode_strip_comment_exp = re.compile("\([^\(\)]*\)|;.*|[/\*].*\n")
 m114_exp = re.compile("\([^\(\)]*\)|[/\*].*\n|([XYZ]):?([-+]?[0-9]*\.?[0-9]*)")
-specific_exp = "(?:\([^\(\)]*\))|(?:;.*)|(?:[/\*].*\n)|(%s[-+]?[0-9]*\.?[0-9]*)"
+specific_exp = "(?:\([^\(\)]*\))|(?:;.*)|(?:[/\*].*\n)|(%s[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+))"
 move_gcodes = ["G0", "G1", "G2", "G3"]
 linear_move_gcodes = ["G0", "G1"]
 gcode_possible_arguments = ['x', 'y', 'z', 'e', 'f', 'i', 'j']
@@ -121,7 +121,7 @@ LightLine = PyLightLine
 
 def find_specific_code(line, code):
     exp = specific_exp % code
-    bits = [bit for bit in re.findall(exp, line.raw) if bit]
+    bits = [bit for bit in re.findall(exp, line.raw, re.IGNORECASE) if bit]
     if not bits:
         return None
     else:
@@ -500,7 +500,10 @@ class GCode(object):
                 elif line.command == "M83":
                     relative_e = True
                 elif line.command[0] == "T":
-                    current_tool = int(line.command[1:])
+                    try:
+                        current_tool = int(line.command[1:])
+                    except ValueError:
+                        logging.warning("tool of G-Code line \"%s\" could not be parsed" % line.raw)
 
                 if line.command[0] == "G":
                     parse_coordinates(line, split_raw, imperial)
-- 
2.43.0


From 283aa2de093c47812c36c92a61ead818b968f463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 02/60] fix: G92 E shifts the extruder coordinate instead of
 moving the extruder

The tracked extruder position, the filament length and the extruding flag were
wrong after every G92 E: the extruder position is now counted from the machine
start, as documented, and the arc optimizer uses programmed E values.
---
 gcodeutils/filter/arc_optimizer.py | 5 +++--
 gcodeutils/gcoder.py               | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 680682d..da947c6 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -308,13 +308,14 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             phase_diffs=self.get_phase_diffs(circle)
             arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
             arc_extrusion_length=sum(arc_lens)*extrusions['avg']['ratio']
-            op1.e=self.queue[0].current_e+arc_extrusion_length
+            op1.e=end_point.e-extrusions['total']['filament']+arc_extrusion_length
             op1.relative_e=False
             rel = arc_extrusion_length/extrusions['total']['filament']
             if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
                 op2.command="G92"
-                op2.e = op2.current_e = end_point.current_e
+                op2.e = end_point.e
+                op2.current_e = end_point.current_e
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
                 result.append(op2)
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 3997aa2..e06ed36 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -567,7 +567,7 @@ class GCode(object):
                         max_e = max(max_e, total_e)
                         cur_layer_has_extrusion |= line.extruding
                     elif line.command == "G92":
-                        offset_e = line.e #current_e - line.e
+                        offset_e = current_e - line.e
                 line.current_e = current_e
                 # # Create layers and perform global computations
                 if build_layers:
-- 
2.43.0


From 18a1e692feee8bb24d99ca4a36aa83dd8f98018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 03/60] fix: a G92 without any axis sets every coordinate to 0

It was ignored, so every absolute position after it was tracked wrongly.
---
 gcodeutils/gcoder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index e06ed36..77c8548 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -546,6 +546,12 @@ class GCode(object):
                     if line.x is not None: offset_x = current_x - line.x
                     if line.y is not None: offset_y = current_y - line.y
                     if line.z is not None: offset_z = current_z - line.z
+                    if line.x is None and line.y is None and line.z is None and line.e is None:
+                        # no coordinate given is equivalent to all 0
+                        offset_x = current_x
+                        offset_y = current_y
+                        offset_z = current_z
+                        offset_e = current_e
 
                 line.current_x = current_x
                 line.current_y = current_y
-- 
2.43.0


From 63fbdc576c5febe0ee7f4f5deb8938279019a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 04/60] fix: G28 X homes only the X axis

G28 with an axis letter without a number, or with 0, was tracked as homing
all axes.
---
 gcodeutils/gcoder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 77c8548..dc884ad 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -531,14 +531,16 @@ class GCode(object):
                     if z is not None: current_z = z
 
                 elif line.command == "G28":
-                    home_all = not any([line.x, line.y, line.z])
-                    if home_all or line.x is not None:
+                    # an axis is named by its letter, which usually comes without any number
+                    axes = [code for code, _ in split_raw if code in ("x", "y", "z")]
+                    home_all = not axes
+                    if home_all or "x" in axes:
                         offset_x = 0
                         current_x = self.home_x
-                    if home_all or line.y is not None:
+                    if home_all or "y" in axes:
                         offset_y = 0
                         current_y = self.home_y
-                    if home_all or line.z is not None:
+                    if home_all or "z" in axes:
                         offset_z = 0
                         current_z = self.home_z
 
-- 
2.43.0


From d169175289959104c33d7cff285f100c48cc0710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 05/60] fix: the index of an appended line designates that line

idxs() was one beyond the line in its layer.
---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index dc884ad..a23cd3d 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -396,7 +396,7 @@ class GCode(object):
             self.lines.append(gline)
             self.append_layer.append(gline)
             self.layer_idxs.append(self.append_layer_id)
-            self.line_idxs.append(len(self.append_layer))
+            self.line_idxs.append(len(self.append_layer) - 1)
         return gline
 
     def _preprocess(self, lines=None, build_layers=False,
-- 
2.43.0


From f4c004ba6d856d0f6c2af08c7b4f625543bb560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 06/60] fix: comparing programs no longer ignores one trailing
 line

zip() took one more line out of the first program before noticing the end of
the second one, so a == b held (and diff was empty) when a had exactly one more
line than b.
---
 gcodeutils/gcoder.py | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index a23cd3d..4100aec 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -804,8 +804,8 @@ class GCode(object):
         if not isinstance(other, GCode):
             raise ValueError
 
-        meaningful_lines1 = self.comment_stripper_generator()
-        meaningful_lines2 = other.comment_stripper_generator()
+        meaningful_lines1 = list(self.comment_stripper_generator())
+        meaningful_lines2 = list(other.comment_stripper_generator())
 
         for line_number, (l1, l2) in enumerate(zip(meaningful_lines1, meaningful_lines2)):
             # checking the raw representation of lines is a bit naive
@@ -813,17 +813,11 @@ class GCode(object):
             if l1 != l2:
                 return "First difference after {} meaningful lines: '{}' vs '{}' ".format(line_number, l1.raw, l2.raw)
 
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            l1 = next(meaningful_lines1)
-            return "Remaining line(s) for self: '{}'".format(l1)
-        except StopIteration:
-            try:
-                l2 = next(meaningful_lines2)
-                return "Remaining line(s) for other: '{}'".format(l2)
-            except StopIteration:
-                pass
+        # check that no line is left on either side
+        if len(meaningful_lines1) > len(meaningful_lines2):
+            return "Remaining line(s) for self: '{}'".format(meaningful_lines1[len(meaningful_lines2)])
+        if len(meaningful_lines2) > len(meaningful_lines1):
+            return "Remaining line(s) for other: '{}'".format(meaningful_lines2[len(meaningful_lines1)])
 
         return None
 
@@ -831,26 +825,17 @@ class GCode(object):
         if not isinstance(other, GCode):
             return False
 
-        meaningful_lines1 = self.comment_stripper_generator()
-        meaningful_lines2 = other.comment_stripper_generator()
+        meaningful_lines1 = list(self.comment_stripper_generator())
+        meaningful_lines2 = list(other.comment_stripper_generator())
+
+        if len(meaningful_lines1) != len(meaningful_lines2):
+            return False
 
         for l1, l2 in zip(meaningful_lines1, meaningful_lines2):
             # checking the raw representation of lines is a bit naive
             # that will have to evolve as required
             if l1 != l2:
                 return False
-
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            next(meaningful_lines1)
-            return False
-        except StopIteration:
-            try:
-                next(meaningful_lines2)
-                return False
-            except StopIteration:
-                pass
         return True
 
     def comment_stripper_generator(self):
-- 
2.43.0


From 96b8a9957e26aa9245b198ab23c92d465ebe7904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 07/60] fix: a move that extrudes while changing height prints
 at the new height

It was counted as extrusion of the layer before it, so the layer just travelled
was reported as printed and the one really printed could be missed.
---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 4100aec..5d166c3 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -573,7 +573,6 @@ class GCode(object):
                             total_e += new_e - current_e
                             current_e = new_e
                         max_e = max(max_e, total_e)
-                        cur_layer_has_extrusion |= line.extruding
                     elif line.command == "G92":
                         offset_e = current_e - line.e
                 line.current_e = current_e
@@ -714,6 +713,8 @@ class GCode(object):
                         prev_base_z = base_z
 
             if build_layers:
+                # only now, as a line changing the height belongs to the layer it begins
+                cur_layer_has_extrusion |= bool(line.extruding)
                 cur_lines.append(true_line)
                 layer_idxs.append(layer_id)
                 line_idxs.append(layer_line)
-- 
2.43.0


From 401246a80e3a9ba945d6016c596b8499cf7ca49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 08/60] fix: extrusion before the first height is no printed
 layer

None was listed among the printed heights, which made GCodeIterator, hence
every run of gcode_mod on such a program, crash and counted as a layer.
---
 gcodeutils/gcoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 5d166c3..cc5775e 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -700,7 +700,7 @@ class GCode(object):
                             new_layer.duration = totalduration - layerbeginduration
                             layerbeginduration = totalduration
                             all_layers.append(new_layer)
-                            if cur_layer_has_extrusion and prev_z not in all_zs:
+                            if cur_layer_has_extrusion and prev_z is not None and prev_z not in all_zs:
                                 all_zs.add(prev_z)
                             cur_lines = []
                             cur_layer_has_extrusion = False
@@ -752,7 +752,7 @@ class GCode(object):
                 new_layer.duration = totalduration - layerbeginduration
                 layerbeginduration = totalduration
                 all_layers.append(new_layer)
-                if cur_layer_has_extrusion and prev_z not in all_zs:
+                if cur_layer_has_extrusion and prev_z is not None and prev_z not in all_zs:
                     all_zs.add(prev_z)
 
             self.append_layer_id = len(all_layers)
-- 
2.43.0


From 4ab96d4a90553ff83d3db5b069f00e775d164f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 09/60] fix: relative Z moves come back to the same height

Binary rounding noise (0.3 + 0.6 - 0.6 is not 0.3) made a relative lift and its
return begin another printed height.
---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index cc5775e..d589712 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -669,7 +669,8 @@ class GCode(object):
                             cur_z = line.z
                         elif line.is_move:
                             if line.relative and cur_z is not None:
-                                cur_z += line.z
+                                # without the noise of binary fractions, to recognize a height when coming back
+                                cur_z = round(cur_z + line.z, 6)
                             else:
                                 cur_z = line.z
 
-- 
2.43.0


From e17f6cb68a894399f206d0c8418beedc411ad5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 10/60] fix: estimate the duration from the distance really
 travelled

The estimate used the raw X, Y, Z and E words: relative moves were measured as
the difference of two increments, and the moves after G92, G28 and arcs from a
wrong starting point, so the same motion got different durations.
---
 gcodeutils/gcoder.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index d589712..7e0c77c 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -445,10 +445,10 @@ class GCode(object):
             # get device caps from firmware: max speed, acceleration/axis
             # (including extruder)
             # calculate the maximum move duration accounting for above ;)
-            lastx = lasty = lastz = laste = lastf = 0.0
+            lastf = 0.0
             lastdx = 0
             lastdy = 0
-            x = y = e = f = 0.0
+            f = 0.0
             currenttravel = 0.0
             moveduration = 0.0
             totalduration = 0.0
@@ -479,6 +479,7 @@ class GCode(object):
             # Use a heavy copy of the light line to preprocess
             line = get_line(true_line)
             split_raw = split(line)
+            start_x, start_y, start_z, start_e = current_x, current_y, current_z, current_e
             if line.command:
                 # Update properties
                 if line.is_move:
@@ -597,12 +598,8 @@ class GCode(object):
 
                     # Compute duration
                     if line.command == "G0" or line.command == "G1":
-                        x = line.x if line.x is not None else lastx
-                        y = line.y if line.y is not None else lasty
-                        z = line.z if line.z is not None else lastz
-                        e = line.e if line.e is not None else laste
                         # mm/s vs mm/m => divide by 60
-                        f = line.f / 60.0 if line.f is not None else lastf
+                        f = current_f / 60.0
 
                         # given last feedrate and current feedrate calculate the
                         # distance needed to achieve current feedrate.
@@ -619,17 +616,15 @@ class GCode(object):
                         # The following code tries to fix it by forcing a full
                         # reacceleration if this move is in the opposite direction
                         # of the previous one
-                        dx = x - lastx
-                        dy = y - lasty
+                        # travelled distance, without the noise of binary fractions
+                        dx = round(current_x - start_x, 9)
+                        dy = round(current_y - start_y, 9)
                         if dx * lastdx + dy * lastdy <= 0:
                             lastf = 0
 
                         currenttravel = math.hypot(dx, dy)
                         if currenttravel == 0:
-                            if line.z is not None:
-                                currenttravel = abs(line.z) if line.relative else abs(line.z - lastz)
-                            elif line.e is not None:
-                                currenttravel = abs(line.e) if line.relative_e else abs(line.e - laste)
+                            currenttravel = abs(round(current_z - start_z, 9)) or abs(round(current_e - start_e, 9))
                         # Feedrate hasn't changed, no acceleration/decceleration planned
                         if f == lastf:
                             moveduration = currenttravel / f if f != 0 else 0.
@@ -652,10 +647,6 @@ class GCode(object):
 
                         totalduration += moveduration
 
-                        lastx = x
-                        lasty = y
-                        lastz = z
-                        laste = e
                         lastf = f
                     elif line.command == "G4":
                         moveduration = P(line)
-- 
2.43.0


From 3f8bb420bf8dfc7dd796295c69e31a3629d30783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 11/60] fix: rewriting a line keeps its comments and its other
 words

unsplit() dropped them, so translating or converting a program lost S, R, P...
words, and gcode_stretch never stretched a Slic3r program with absolute
extrusion because the conversion removed the comments it relies upon.
---
 gcodeutils/gcoder.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 7e0c77c..e4204c6 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -28,6 +28,7 @@ gcode_parsed_args = ["x", "y", "e", "f", "z", "i", "j"]
 gcode_parsed_nonargs = ["g", "t", "m", "n"]
 to_parse = "".join(gcode_parsed_args + gcode_parsed_nonargs)
 gcode_exp = re.compile("\([^\(\)]*\)|^\(.*\)$|;.*|[/\*].*\n|([%s])((?:[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+))?)" % to_parse)
+gcode_word_exp = re.compile(r"(\([^\(\)]*\)|;.*)|\*\s*[0-9]*|([a-z])([-+]?[0-9]*\.?[0-9]*)", re.IGNORECASE)
 gcode_strip_comment_exp = re.compile("\([^\(\)]*\)|;.*|[/\*].*\n")
 m114_exp = re.compile("\([^\(\)]*\)|[/\*].*\n|([XYZ]):?([-+]?[0-9]*\.?[0-9]*)")
 specific_exp = "(?:\([^\(\)]*\))|(?:;.*)|(?:[/\*].*\n)|(%s[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+))"
@@ -168,7 +169,21 @@ def unsplit(line):
         if getattr(line, bit) is not None:
             format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
             arg += [bit.upper(), getattr(line, bit)]
-    line.raw = line.command + format.format(*arg)
+    line.raw = line.command + format.format(*arg) + other_words_and_comments(line.raw)
+
+
+def other_words_and_comments(raw):
+    """Return what a raw line holds beside its number, command, parsed arguments and checksum"""
+    command_found = False
+    words = comments = ""
+    for comment, letter, value in gcode_word_exp.findall(raw or ""):
+        if comment:
+            comments += " " + comment
+        elif letter and not command_found:
+            command_found = letter not in "nN"
+        elif letter and letter.lower() not in gcode_possible_arguments:
+            words += " " + letter.upper() + value
+    return words + comments
 
 
 def parse_coordinates(line, split_raw, imperial=False, force=False):
-- 
2.43.0


From 863382a8d48587f1997845ec45410cc96e1adaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 12/60] fix: lines of a program in inches are rewritten in
 inches

Arguments are stored in millimetres and were written back without conversion,
so translation, extrusion conversion, stretching and arc optimisation blew every
rewritten line of a G20 program up by 25.4.
---
 gcodeutils/filter/arc_optimizer.py | 2 ++
 gcodeutils/gcoder.py               | 8 +++++++-
 gcodeutils/stretch/stretch.py      | 3 ++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index da947c6..77a1122 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -290,6 +290,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         extrusions = self.get_distances()
         op1 = Line()
         result.append(op1)
+        op1.imperial = end_point.imperial
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
         op1.x = round(circle.end.x, 3)
         op1.y = round(circle.end.y, 3)
@@ -314,6 +315,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
                 op2.command="G92"
+                op2.imperial = end_point.imperial
                 op2.e = end_point.e
                 op2.current_e = end_point.current_e
                 unsplit(op2)
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index e4204c6..7653da7 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -46,7 +46,7 @@ GCODE_RELATIVE_EXTRUSION_COMMAND = 'M83'
 
 class PyLine(object):
     __slots__ = ('x', 'y', 'z', 'e', 'f', 'i', 'j',
-                 'raw', 'command', 'is_move',
+                 'raw', 'command', 'is_move', 'imperial',
                  'relative', 'relative_e',
                  'current_x', 'current_y', 'current_z', 'extruding',
                  'current_tool', 'current_f', 'current_e',
@@ -167,6 +167,11 @@ def unsplit(line):
     arg = []
     for bit in gcode_possible_arguments:
         if getattr(line, bit) is not None:
+            if line.imperial:
+                # arguments are stored in mm, inches need more digits for the same precision
+                format += " {}{:.7f}" if bit == 'e' else " {}{:.5f}"
+                arg += [bit.upper(), getattr(line, bit) / 25.4]
+                continue
             format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
             arg += [bit.upper(), getattr(line, bit)]
     line.raw = line.command + format.format(*arg) + other_words_and_comments(line.raw)
@@ -521,6 +526,7 @@ class GCode(object):
                     except ValueError:
                         logging.warning("tool of G-Code line \"%s\" could not be parsed" % line.raw)
 
+                line.imperial = imperial
                 if line.command[0] == "G":
                     parse_coordinates(line, split_raw, imperial)
 
diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 2d5464e..43de48a 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -331,7 +331,7 @@ class StretchFilter:
             self.current_layer = current_layer[:]
             for self.line_number_in_layer, line in enumerate(self.current_layer):
                 gcode_line = self.parse_line(line)
-                parse_coordinates(gcode_line, split(gcode_line))
+                parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
     def get_cross_limited_stretch(self, crossLimitedStretch, crossLineIterator, locationComplex):
@@ -428,6 +428,7 @@ class StretchFilter:
 
         result = Line()
         result.command = original_line.command
+        result.imperial = original_line.imperial
         result.x = stretchedPoint.real
         result.y = stretchedPoint.imag
         result.z = original_line.z
-- 
2.43.0


From 0c8f564e65a227ddb6f3ff3469d513068837d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 13/60] fix: translation holds through G92, G28 and relative
 moves

G92 E0 was taken for a G92 without any axis and rewritten to set X and Y, a real
one lost its Z and E, a G92 after the first absolute move shifted the rest of the
program twice, homing did not restore the untranslated coordinates, and relative
programs were never translated.
---
 gcodeutils/filter/translate.py | 102 +++++++++++++++++++++++----------
 gcodeutils/gcoder.py           |   1 +
 2 files changed, 72 insertions(+), 31 deletions(-)

diff --git a/gcodeutils/filter/translate.py b/gcodeutils/filter/translate.py
index 2e1ed0f..8d7103f 100644
--- a/gcodeutils/filter/translate.py
+++ b/gcodeutils/filter/translate.py
@@ -2,7 +2,7 @@ import logging
 
 from gcodeutils.filter.filter import GCodeFilter
 from gcodeutils.gcoder import move_gcodes, split, unsplit, GCODE_ABSOLUTE_POSITIONING_COMMAND, \
-    GCODE_RELATIVE_POSITIONING_COMMAND, GCODE_SET_POSITION_COMMAND, Line, raw_to_line
+    GCODE_RELATIVE_POSITIONING_COMMAND, GCODE_SET_POSITION_COMMAND, GCODE_HOME_COMMAND, Line
 
 __author__ = 'olivier'
 
@@ -14,36 +14,73 @@ class GCodeXYTranslateFilter(GCodeFilter):
         self.translate_x = x or 0.
         self.translate_y = y or 0.
 
-        self.first_move_after_home = False
+        # amount left to add to the absolute coordinates, 0 once a G92 made the translated position the reference
+        self.shift_x = self.translate_x
+        self.shift_y = self.translate_y
+
+        # is the head already translated, compared with the original program ?
+        self.translated_x = False
+        self.translated_y = False
+
+        # axes homed and not moved since
+        self.first_x_move_after_home = False
+        self.first_y_move_after_home = False
 
         self.absolute_distance_mode = None  # None if when it is unknown
 
-    def generate_translation(self):
-        return raw_to_line("G0 X%.4f Y%.4f" % (self.translate_x, self.translate_y))
+    def generate_translation(self, opcode):
+        """create the travel which translates the axes just homed, in the relative mode of the given move"""
+        result = Line()
+        result.command = "G0"
+        result.is_move = True
+        result.relative = True
+        result.relative_e = opcode.relative_e
+        result.imperial = opcode.imperial
+        if self.first_x_move_after_home:
+            result.x = self.translate_x
+        if self.first_y_move_after_home:
+            result.y = self.translate_y
+        unsplit(result)
+        return result
 
     def opcode_filter(self, opcode):
         if opcode.command in move_gcodes:
 
             if self.absolute_distance_mode is None:
-                logging.warn('Move detected without absolute or related mode selected first')
+                logging.warning('Move detected without absolute or related mode selected first')
                 return
 
             if not self.absolute_distance_mode:
 
                 # we're in relative mode, if the first move after a homing, translate quickly
-                if self.first_move_after_home:
-                    self.first_move_after_home = False
-                    return [self.generate_translation(), opcode]
+                if (opcode.x is not None or opcode.y is not None) and \
+                        (self.first_x_move_after_home or self.first_y_move_after_home):
+                    result = [self.generate_translation(opcode), opcode]
+                    self.translated_x |= self.first_x_move_after_home
+                    self.translated_y |= self.first_y_move_after_home
+                    self.first_x_move_after_home = self.first_y_move_after_home = False
+                    return result
 
                 return
 
             # at this point, we're an absolute move, we have to "hard patch" coordinate
-            if opcode.x is not None and self.translate_x:
-                opcode.x += self.translate_x
-                unsplit(opcode)
+            modified = False
+
+            if opcode.x is not None:
+                self.translated_x = True
+                self.first_x_move_after_home = False
+                if self.shift_x:
+                    opcode.x += self.shift_x
+                    modified = True
+
+            if opcode.y is not None:
+                self.translated_y = True
+                self.first_y_move_after_home = False
+                if self.shift_y:
+                    opcode.y += self.shift_y
+                    modified = True
 
-            if opcode.y is not None and self.translate_y:
-                opcode.y += self.translate_y
+            if modified:
                 unsplit(opcode)
 
             return opcode
@@ -56,26 +93,29 @@ class GCodeXYTranslateFilter(GCodeFilter):
             self.absolute_distance_mode = False
             return
 
-        if opcode.command == GCODE_SET_POSITION_COMMAND:
-            if opcode.x is None and opcode.y is None and opcode.z is None:
-                # no coordinate given is equivalent to all 0
-                opcode.x = - self.translate_x
-                opcode.y = - self.translate_y
+        if opcode.command == GCODE_HOME_COMMAND:
+            # homed axes are back to the original coordinate system, at an untranslated position
+            axes = [bit[0] for bit in split(opcode) if bit[0] in ('x', 'y', 'z')]
 
-                # now, there is a new reference point, that we translated so there's nothing left to do until
-                # the end of the program
-                self.translate_x = self.translate_y = 0
+            if not axes or 'x' in axes:
+                self.shift_x = self.translate_x
+                self.translated_x = False
+                self.first_x_move_after_home = self.translate_x != 0
 
-                unsplit(opcode)
-                return opcode
+            if not axes or 'y' in axes:
+                self.shift_y = self.translate_y
+                self.translated_y = False
+                self.first_y_move_after_home = self.translate_y != 0
 
-            if opcode.x is not None:
-                opcode.x -= self.translate_x
-                self.translate_x = 0
+            return
 
-            if opcode.y is not None:
-                opcode.y -= self.translate_y
-                self.translate_y = 0
+        if opcode.command == GCODE_SET_POSITION_COMMAND:
+            # no coordinate given is equivalent to all 0
+            all_axes = opcode.x is None and opcode.y is None and opcode.z is None and opcode.e is None
 
-            unsplit(opcode)
-            return opcode
+            # the current position becomes the reference: if it is translated, so is the new coordinate system
+            if all_axes or opcode.x is not None:
+                self.shift_x = 0 if self.translated_x else self.translate_x
+
+            if all_axes or opcode.y is not None:
+                self.shift_y = 0 if self.translated_y else self.translate_y
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 7653da7..f49b023 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -39,6 +39,7 @@ gcode_possible_arguments = ['x', 'y', 'z', 'e', 'f', 'i', 'j']
 GCODE_ABSOLUTE_POSITIONING_COMMAND = 'G90'
 GCODE_RELATIVE_POSITIONING_COMMAND = 'G91'
 GCODE_SET_POSITION_COMMAND = 'G92'
+GCODE_HOME_COMMAND = 'G28'
 
 GCODE_ABSOLUTE_EXTRUSION_COMMAND = 'M82'
 GCODE_RELATIVE_EXTRUSION_COMMAND = 'M83'
-- 
2.43.0


From 61c1bb5ecea91e10098496f1fdf28805dac27bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 14/60] fix: converted extrusions are always read in relative
 mode

A program without M82 got relative amounts but no M83, G90 and G91 were not
known to switch the extruder (although the parser says they do), so the last
retraction of Cura programs was converted to nonsense, and extrusions in
relative mode were not counted.
---
 gcodeutils/filter/relative_extrusion.py | 35 ++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/filter/relative_extrusion.py b/gcodeutils/filter/relative_extrusion.py
index e083a50..f424df6 100644
--- a/gcodeutils/filter/relative_extrusion.py
+++ b/gcodeutils/filter/relative_extrusion.py
@@ -1,9 +1,10 @@
 from decimal import Decimal
 
 from gcodeutils.filter.filter import GCodeFilter
-from gcodeutils.gcoder import GCODE_SET_POSITION_COMMAND, GCODE_RELATIVE_POSITIONING_COMMAND, move_gcodes, split, Line, \
+from gcodeutils.gcoder import GCODE_SET_POSITION_COMMAND, GCODE_ABSOLUTE_POSITIONING_COMMAND, \
+    GCODE_RELATIVE_POSITIONING_COMMAND, move_gcodes, \
     GCODE_ABSOLUTE_EXTRUSION_COMMAND, \
-    GCODE_RELATIVE_EXTRUSION_COMMAND, raw_to_line, unsplit
+    GCODE_RELATIVE_EXTRUSION_COMMAND, raw_to_line, unsplit, other_words_and_comments
 
 __author__ = 'olivier'
 
@@ -11,16 +12,26 @@ __author__ = 'olivier'
 class GCodeToRelativeExtrusionFilter(GCodeFilter):
     def __init__(self):
         self.relative_extrusion = False
+        # extrusion mode in force in the converted program
+        self.converted_relative_extrusion = False
         self.current_extrusion_distance = Decimal()
 
     def opcode_filter(self, opcode):
         if opcode.command == GCODE_RELATIVE_EXTRUSION_COMMAND:
             self.relative_extrusion = True
+            self.converted_relative_extrusion = True
             return
 
         if opcode.command == GCODE_ABSOLUTE_EXTRUSION_COMMAND:
             self.relative_extrusion = False
-            return raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND)
+            self.converted_relative_extrusion = True
+            return raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND + other_words_and_comments(opcode.raw))
+
+        # the positioning mode is the one of the extruder too
+        if opcode.command in (GCODE_ABSOLUTE_POSITIONING_COMMAND, GCODE_RELATIVE_POSITIONING_COMMAND):
+            self.relative_extrusion = opcode.command == GCODE_RELATIVE_POSITIONING_COMMAND
+            self.converted_relative_extrusion = self.relative_extrusion
+            return
 
         if opcode.command == GCODE_SET_POSITION_COMMAND:
 
@@ -32,11 +43,27 @@ class GCodeToRelativeExtrusionFilter(GCodeFilter):
 
             return
 
-        if opcode.command in move_gcodes and not self.relative_extrusion and opcode.e is not None:
+        if opcode.command in move_gcodes and self.relative_extrusion and opcode.e is not None:
+            self.current_extrusion_distance += Decimal(opcode.e)
+            return
+
+        if opcode.command in move_gcodes and opcode.e is not None:
+            if not self.current_extrusion_distance:
+                # the absolute extrusion is the relative one
+                self.current_extrusion_distance = Decimal(opcode.e)
+                opcode.relative_e = self.converted_relative_extrusion
+                return
+
             # we're extruding while in absolute extrusion mode, reduce by the amount extruded so far
             # and keep track of the current e for later reuse
             opcode.e, self.current_extrusion_distance = (
             opcode.e - float(self.current_extrusion_distance), Decimal(opcode.e))
             opcode.relative_e=True
             unsplit(opcode)
+
+            if not self.converted_relative_extrusion:
+                # no command of the program selects the relative mode before this extrusion
+                self.converted_relative_extrusion = True
+                return [raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND), opcode]
+
             return opcode
-- 
2.43.0


From f865619fdd6265154c60cdaf7a6721c0b224aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 15/60] fix: the iterator reports the index of the visited
 layer itself

Layers with identical contents were all reported with the index of the first
of them.
---
 gcodeutils/visit/iterator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 78757ae..03265b4 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -46,8 +46,7 @@ class GCodeIterator(object):
         parsed_layer_number = 0
         parsed_line_number = 0
 
-        for parsed_layer in self.__gcode.all_layers:
-            layer_index = self.__gcode.all_layers.index(parsed_layer)
+        for layer_index, parsed_layer in enumerate(self.__gcode.all_layers):
             try:
                 layer_z = round(parsed_layer.z, self.__digits_of_precision)
                 layer_number = self.__all_zs.index(layer_z)
-- 
2.43.0


From cca17d5cd3299be958ebe153f9c24b6cf1774350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 16/60] fix: a layer is paused once, before filament is first
 fed in it

Lifts to the height of a printed layer counted as that layer, and a layer
printed in several passes was paused before each of them.
---
 gcodeutils/gcoder.py               |  6 +++++-
 gcodeutils/visit/iterator.py       | 13 ++++++-------
 gcodeutils/visit/pause_at_layer.py |  9 ++++++++-
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index f49b023..2210cb4 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -206,11 +206,13 @@ def parse_coordinates(line, split_raw, imperial=False, force=False):
 
 
 class Layer(list):
-    __slots__ = ("duration", "z")
+    __slots__ = ("duration", "z", "printed")
 
     def __init__(self, lines, z=None):
         super(Layer, self).__init__(lines)
         self.z = z
+        # is filament fed in this layer ?
+        self.printed = False
 
 
 class GCode(object):
@@ -711,6 +713,7 @@ class GCode(object):
 
                         if base_z != prev_base_z:
                             new_layer = Layer(cur_lines, base_z)
+                            new_layer.printed = cur_layer_has_extrusion
                             new_layer.duration = totalduration - layerbeginduration
                             layerbeginduration = totalduration
                             all_layers.append(new_layer)
@@ -763,6 +766,7 @@ class GCode(object):
         if build_layers:
             if cur_lines:
                 new_layer = Layer(cur_lines, prev_z)
+                new_layer.printed = cur_layer_has_extrusion
                 new_layer.duration = totalduration - layerbeginduration
                 layerbeginduration = totalduration
                 all_layers.append(new_layer)
diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 03265b4..07ca2a1 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -35,7 +35,7 @@ class GCodeIterator(object):
         self.__digits_of_precision = digits_of_precision
         self.__logger = logging.getLogger(LOGGER_NAME)
         self.__all_zs = sorted(
-            [round(z, self.__digits_of_precision) for z in self.__gcode.all_zs]
+            set(round(z, self.__digits_of_precision) for z in self.__gcode.all_zs)
         )
         self.__logger.debug("  all_zs: %s", self.__all_zs)
         self.__logger.debug("  %s layers: %s", PRINTED_LAYER_KIND, len(self.__all_zs))
@@ -47,13 +47,12 @@ class GCodeIterator(object):
         parsed_line_number = 0
 
         for layer_index, parsed_layer in enumerate(self.__gcode.all_layers):
-            try:
+            is_printed = False
+            # a lift to a height printed elsewhere is no printed layer
+            if parsed_layer.printed and parsed_layer.z is not None:
                 layer_z = round(parsed_layer.z, self.__digits_of_precision)
-                layer_number = self.__all_zs.index(layer_z)
-                is_printed = True
-            except:
-                layer_number = parsed_layer_number
-                is_printed = False
+                is_printed = layer_z in self.__all_zs
+            layer_number = self.__all_zs.index(layer_z) if is_printed else parsed_layer_number
 
             layer_kind = PRINTED_LAYER_KIND if is_printed else PARSED_LAYER_KIND
             self.__logger.debug(
diff --git a/gcodeutils/visit/pause_at_layer.py b/gcodeutils/visit/pause_at_layer.py
index bd0993e..b904842 100644
--- a/gcodeutils/visit/pause_at_layer.py
+++ b/gcodeutils/visit/pause_at_layer.py
@@ -12,18 +12,25 @@ PAUSE_COMMAND = "M226"
 
 class PauseAtLayer(GCodeVisitor):
     """This class inserts a pause command at the start of each layer specified
+    A layer printed in several passes is paused before the first one
     """
 
     def __init__(self, pause_layer_list):
         self.__pause_layer_list = pause_layer_list
+        self.__paused_layers = set()
 
     def did_visit_layer(self, layer_as_pyline_list, gcode_iterator_info):
         """Inserts a pause command if the layer matches the list
         """
+        if gcode_iterator_info.layer_index == 0:
+            # beginning of a walk
+            self.__paused_layers.clear()
         is_printed = gcode_iterator_info.is_printed
         is_pause_layer = gcode_iterator_info.layer_number in self.__pause_layer_list
-        should_pause = is_printed and is_pause_layer
+        is_paused = gcode_iterator_info.layer_number in self.__paused_layers
+        should_pause = is_printed and is_pause_layer and not is_paused
         if should_pause:
+            self.__paused_layers.add(gcode_iterator_info.layer_number)
             gcode = gcode_iterator_info.gcode
             layer_index = gcode_iterator_info.layer_index
             commands_to_prepend = [PAUSE_COMMAND]
-- 
2.43.0


From 3b334393707b8756bee3f3db9f33f25ca4ee1c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 17/60] fix: comments, travel circles, extruder-only moves and
 aligned points do not crash the arc optimizer

---
 gcodeutils/filter/arc_optimizer.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 77a1122..7dc357e 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -147,7 +147,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             svuu += pt.y * pt.x * pt.x
         if suu < EPSILON or svv < EPSILON:
             return None
-        v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / (((-(suv * suv)) / suu) + svv)
+        determinant = ((-(suv * suv)) / suu) + svv
+        if abs(determinant) < EPSILON:
+            # points are aligned
+            return None
+        v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / determinant
         u = (((suuu + suvv) / 2) - (v * suv)) / suu
         # calculate direction
         center = Point(x=u + xbar, y=v + ybar)
@@ -249,7 +253,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             prev = line
         extrusions['avg']['filament'] = extrusions['total']['filament'] / len(self.queue)
         extrusions['avg']['path'] = extrusions['total']['path'] / len(self.queue)
-        extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
+        if extrusions['total']['path'] >= EPSILON:
+            extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
         return extrusions
 
     def queue_valid(self):
@@ -287,7 +292,6 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         count = len(self.queue)
         end_point = self.queue[-1]
         error, circle = self.get_circle()
-        extrusions = self.get_distances()
         op1 = Line()
         result.append(op1)
         op1.imperial = end_point.imperial
@@ -296,7 +300,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1.y = round(circle.end.y, 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
-        if end_point.relative_e:
+        if end_point.e is None:
+            # travel, nothing is extruded
+            pass
+        elif end_point.relative_e:
+            extrusions = self.get_distances()
             # calculate extrusion correction
             # arc length   b = r·alpha (alpha in radian)
             # chord length s = 2·r·sin(alpha/2)
@@ -305,6 +313,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                   for s0, alpha in zip(extrusions['filament'].values(), self.get_phase_diffs(circle))])
             op1.relative_e = True
         else:
+            extrusions = self.get_distances()
             # absolute mode: fall-back to the original length
             phase_diffs=self.get_phase_diffs(circle)
             arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
@@ -336,7 +345,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         :param opcode: the opcode
         :return: the resulting opcode or a list of resulting opcodes
         """
-        if opcode.command is None and len(self.queue) > 0:
+        if opcode.command is None and len(self.queue) == 0:
+            # no position to start a circle from
+            return
+        if opcode.command is None:
             opcode.current_x  =self.queue[-1].current_x
             opcode.current_y = self.queue[-1].current_y
             opcode.current_z = self.queue[-1].current_z
-- 
2.43.0


From 4f15500b1739cb30f22e2edae2316ebde82916d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 18/60] fix: clockwise arcs in absolute extrusion mode no
 longer retract

---
 gcodeutils/filter/arc_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 7dc357e..e5c8cfc 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -316,7 +316,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             extrusions = self.get_distances()
             # absolute mode: fall-back to the original length
             phase_diffs=self.get_phase_diffs(circle)
-            arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
+            # angles of a clockwise arc are negative
+            arc_lens=[ abs(alpha)*circle.radius for alpha in phase_diffs]
             arc_extrusion_length=sum(arc_lens)*extrusions['avg']['ratio']
             op1.e=end_point.e-extrusions['total']['filament']+arc_extrusion_length
             op1.relative_e=False
-- 
2.43.0


From a0ba992235edd264ef0b179d436a235a6b16b493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 19/60] fix: arcs neither turn back nor overlap

Angle steps smaller than the average, including backward ones, were always
accepted, and several turns became a single one.
---
 gcodeutils/filter/arc_optimizer.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index e5c8cfc..7ccf72f 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -202,10 +202,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
 
     def get_circle(self):
         """
-        check if we have a valid circle. There are three criterias
+        check if we have a valid circle. There are four criterias
         - all points have to be on the cicle arc (with max ALIGNMENT_ERROR variation)
         - all points are equidistant to each other (the angle between them is of same size with max PHASE_ERROR
           variation)
+        - all points follow each other in the same direction, without any overlap
         :return: a tuple consisting of the bool indication an erroneous circle and the estimated circle
         """
         circle = self.get_circle_least_squares()
@@ -215,7 +216,22 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         if any([error > ALIGNMENT_ERROR for error in radius_err]):
             return True, circle
         angle_err = self.get_circle_angle_errors(circle)
-        return any([error > PHASE_ERROR for error in angle_err]), circle
+        if any([abs(error) > PHASE_ERROR for error in angle_err]):
+            return True, circle
+        return not self.is_single_turn(circle), circle
+
+    def is_single_turn(self, circle):
+        """
+        check that the points follow each other in the direction of the circle, in at most one turn
+        An almost full turn is ambiguous once its end is rounded, contrary to a turn ending where it starts.
+        """
+        phase_diffs = self.get_phase_diffs(circle)
+        if any([phase_diff * circle.direction <= 0 for phase_diff in phase_diffs]):
+            return False
+        remaining_angle = 2 * cmath.pi - abs(sum(phase_diffs))
+        if circle.start.distance_to(circle.end) < EPSILON:
+            return abs(remaining_angle) < EPSILON
+        return remaining_angle * circle.radius > ALIGNMENT_ERROR
 
     def get_distances(self):
         """
-- 
2.43.0


From dd2b470bf0eea9eaff9b10e57418f5da0ef162d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 20/60] fix: a height change in the first segment of an arc is
 not lost

---
 gcodeutils/filter/arc_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 7ccf72f..8ae9a59 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -281,7 +281,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         # check from 1 as idx 0 indicates the move to the start point
         all_e = False if self.queue[1].e is None else True
         cur_f = self.queue[1].current_f
-        cur_z = self.queue[1].current_z
+        # but the first segment has to be at the height of the start point
+        cur_z = self.queue[0].current_z
         valid_e = all([line.e is not None for line in self.queue[1:]]) if all_e else \
             not any([line.e is not None for line in self.queue[1:]])
         valid_f = all([line.current_f == cur_f for line in self.queue[1:]])
-- 
2.43.0


From 5e568f1accf25969bfd7b26de4544afaca6af374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 21/60] fix: existing arcs and comments are not merged into an
 arc

---
 gcodeutils/filter/arc_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 8ae9a59..5ef7927 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -11,7 +11,7 @@ import logging
 from math import sqrt, sin
 import cmath
 from gcodeutils.filter.filter import GCodeFilter
-from gcodeutils.gcoder import Line, move_gcodes, unsplit
+from gcodeutils.gcoder import Line, move_gcodes, linear_move_gcodes, unsplit
 
 __author__ = 'Eyck Jentzsch <eyck@jepemuc.de>'
 
@@ -279,6 +279,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         :return: a tuple consisting of the bool indication an erroneous circle and the estimated circle
         """
         # check from 1 as idx 0 indicates the move to the start point
+        if not all([line.command in linear_move_gcodes for line in self.queue[1:]]):
+            return True, None
         all_e = False if self.queue[1].e is None else True
         cur_f = self.queue[1].current_f
         # but the first segment has to be at the height of the start point
-- 
2.43.0


From f01a24c741ca32a64575354984a5b1f077f1d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 22/60] fix: arcs end at the right place in relative mode and
 after G92

---
 gcodeutils/filter/arc_optimizer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 5ef7927..3ab6ed7 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -315,8 +315,15 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         result.append(op1)
         op1.imperial = end_point.imperial
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
-        op1.x = round(circle.end.x, 3)
-        op1.y = round(circle.end.y, 3)
+        if end_point.relative:
+            origin = circle.start
+        else:
+            # origin of the coordinate system, as shifted by G92, it stays the same in the whole queue
+            origin = Point([line.current_x - line.x for line in self.queue[1:] if line.x is not None][0],
+                           [line.current_y - line.y for line in self.queue[1:] if line.y is not None][0])
+        op1.relative = end_point.relative
+        op1.x = round(circle.end.x - origin.x, 3)
+        op1.y = round(circle.end.y - origin.y, 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
         if end_point.e is None:
-- 
2.43.0


From 33400101e2e5801af61072772f8906e7046f99a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 23/60] fix: arcs do not get a null feed rate when none is
 known

---
 gcodeutils/filter/arc_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 3ab6ed7..8f15019 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -357,7 +357,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
                 result.append(op2)
-        op1.f = end_point.current_f
+        if end_point.current_f:
+            op1.f = end_point.current_f
         unsplit(op1)
         op1.raw += "; generated from %s segments" % (count - 1)
         self.valid_circle = False
-- 
2.43.0


From 7c9ebf27606e251b046c0675da4df11bc132e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 24/60] fix: the end of a program does not leak into the next
 one to optimize

---
 gcodeutils/filter/arc_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 8f15019..f936c42 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -120,6 +120,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             self.parse_layer(layer, opcode_filter)
         if len(self.queue) > 0:
             layer += self.queue
+            self.queue = []
+            self.valid_circle = False
 
     def get_circle_least_squares(self):
         """
-- 
2.43.0


From e6a7550afdfa7ede1a84257cdb64c7cd0061af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 25/60] fix: a full turn written as an arc ends exactly where
 it starts

Rounding its end could make it an arc of almost no length.
---
 gcodeutils/filter/arc_optimizer.py | 35 ++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index f936c42..3245f49 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -232,9 +232,26 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             return False
         remaining_angle = 2 * cmath.pi - abs(sum(phase_diffs))
         if circle.start.distance_to(circle.end) < EPSILON:
-            return abs(remaining_angle) < EPSILON
+            return abs(remaining_angle) < EPSILON and self.is_exactly_written(circle.end - self.get_origin(circle))
         return remaining_angle * circle.radius > ALIGNMENT_ERROR
 
+    def get_origin(self, circle):
+        """
+        get the origin of the end coordinates: the start in relative mode, else the origin as shifted by G92, which
+        is the same for the whole queue
+        """
+        if self.queue[-1].relative:
+            return circle.start
+        return Point([line.current_x - line.x for line in self.queue[1:] if line.x is not None][0],
+                     [line.current_y - line.y for line in self.queue[1:] if line.y is not None][0])
+
+    def is_exactly_written(self, point):
+        """
+        check that writing the point, in the unit of the queue, does not round it
+        """
+        unit, digits = (25.4, 5) if self.queue[-1].imperial else (1, 3)
+        return all([abs(round(value / unit, digits) * unit - value) < EPSILON for value in (point.x, point.y)])
+
     def get_distances(self):
         """
         calculate extrusion and distances allong a path and its ratios
@@ -317,17 +334,13 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         result.append(op1)
         op1.imperial = end_point.imperial
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
-        if end_point.relative:
-            origin = circle.start
-        else:
-            # origin of the coordinate system, as shifted by G92, it stays the same in the whole queue
-            origin = Point([line.current_x - line.x for line in self.queue[1:] if line.x is not None][0],
-                           [line.current_y - line.y for line in self.queue[1:] if line.y is not None][0])
         op1.relative = end_point.relative
-        op1.x = round(circle.end.x - origin.x, 3)
-        op1.y = round(circle.end.y - origin.y, 3)
-        op1.i = round(circle.center.x - circle.start.x, 3)
-        op1.j = round(circle.center.y - circle.start.y, 3)
+        end = circle.end - self.get_origin(circle)
+        # rounded when written, according to the unit
+        op1.x = end.x
+        op1.y = end.y
+        op1.i = circle.center.x - circle.start.x
+        op1.j = circle.center.y - circle.start.y
         if end_point.e is None:
             # travel, nothing is extruded
             pass
-- 
2.43.0


From 6f1d486f62fde39119f6bef2ac8c67b2f2d734de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 26/60] fix: gcode_tempcal can be imported outside of its own
 directory

---
 gcodeutils/gcode_tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index a8cee66..46712ad 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -10,7 +10,7 @@ import sys
 
 __author__ = 'Olivier Jolly <olivier@pcedev.com>'
 
-from gcoder import GCode  # pylint: disable=relative-import
+from gcodeutils.gcoder import GCode
 
 
 class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
-- 
2.43.0


From 17df3639897ea99fc350f7f660f279688d511369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 27/60] fix: the number of temperature steps given on the
 command line is a number

---
 gcodeutils/gcode_tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 46712ad..9be7962 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -168,7 +168,7 @@ def main():
                                      help='Switch to a continuous gradient generation where temperature is recomputed '
                                           'for every layer. You may want this in the case of very precise and fast '
                                           'hotend. Defaults to discrete temperature gradient divided in X steps.')
-    temperature_control.add_argument('--steps', '-s', default=10,
+    temperature_control.add_argument('--steps', '-s', type=int, default=10,
                                      help='Number of steps used to create a discrete gradient when using the default '
                                           'gradient generation model. Defaults to %(default)s steps. This setting is '
                                           'not used when using the continuous gradient generation model.')
-- 
2.43.0


From dee0392ae59b7e5a4ee89c133f719e3b471bb9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 28/60] fix: the temperature changes by steps and not beyond
 the end temperature

---
 gcodeutils/gcode_tempcal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 9be7962..0bbccdb 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -134,11 +134,13 @@ class GCodeStepTempGradient(GCodeTempGradient):
         self.step_end_temp = self.end_temp + (self.end_temp - self.start_temp) / self.steps
         self.steps += 1
 
+        self.min_temp = min(self.end_temp, self.start_temp)
         self.max_temp = max(self.end_temp, self.start_temp)
 
     def get_temp_for_current_layer(self):
-        progress = float(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.steps) / self.steps
-        return min(self.max_temp, self.start_temp + progress * (self.step_end_temp - self.start_temp))
+        progress = int(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.steps) / self.steps
+        target_temp = self.start_temp + progress * (self.step_end_temp - self.start_temp)
+        return max(self.min_temp, min(self.max_temp, target_temp))
 
 
 def main():
-- 
2.43.0


From 53c4d55335e88ea64974633e636b9d0f20894fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 29/60] fix: the minimum height of a temperature gradient holds
 for the first layer too

---
 gcodeutils/gcode_tempcal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 0bbccdb..8e0ea07 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -57,8 +57,8 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
                 # Keep the lowest Z which is above the minimum height (used to keep the slicer first layers
                 # temperature for adhesion)
-                if self.zmin is None or (
-                                current_z is not None and self.min_z_change < current_z < self.zmin):
+                if current_z is not None and current_z > self.min_z_change and (
+                                self.zmin is None or current_z < self.zmin):
                     self.zmin = current_z
 
         # Make sure that the sliced model is high enough to be usable
-- 
2.43.0


From 161ed87da6a4d9b303718e21fe99e01d982169fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 30/60] fix: the temperature gradient follows the heights of
 the layers, shifted by G92 or not

---
 gcodeutils/gcode_tempcal.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 8e0ea07..0638090 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -25,12 +25,17 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
         self.end_temp = end_temp
         self.min_z_change = min_z_change
 
-        self.zmax = gcode.zmax
+        self.zmax = round(gcode.zmax or 0, 2)
         self.zmin = None
 
         self.last_target_temperature = None
         self.current_z = None
 
+    @staticmethod
+    def get_layer_height(layer):
+        """Return the height at which a layer is printed, whatever the machine position it stands for"""
+        return None if layer.z is None else round(layer.z, 2)
+
     def generate_temperature_gcode(self, temperature):
         """Return a gcode line for the given temperature, under condition that the temperature
         is between the security absolute temperature bounds and that the temperature rounded
@@ -50,7 +55,7 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
             # don't parse layer without any instruction
             if layer:
-                current_z = layer[0].current_z
+                current_z = self.get_layer_height(layer)
 
                 if current_z is not None:
                     logging.debug("layer #%d altitude is %.2fmm", layer_idx, current_z)
@@ -83,7 +88,7 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
         for layer_idx, layer in enumerate(self.gcode.all_layers):
 
             if layer:
-                self.current_z = layer[0].current_z
+                self.current_z = self.get_layer_height(layer)
 
                 if self.current_z and self.zmin <= self.current_z <= self.zmax:
 
-- 
2.43.0


From 8dfd5b34e698565dab9c165a4113ea527fd485cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 31/60] fix: the temperature plugin keeps the original program
 when it refuses it

---
 cura_plugins/tempcal_plugin.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cura_plugins/tempcal_plugin.py b/cura_plugins/tempcal_plugin.py
index 3763db5..2ca6c85 100644
--- a/cura_plugins/tempcal_plugin.py
+++ b/cura_plugins/tempcal_plugin.py
@@ -11,6 +11,10 @@
 # just copy gcodeutils into the plugins directory instead of installing it
 # no twinkles for you, ultimaker
 import sys
+try:
+    from StringIO import StringIO
+except ImportError:
+    from io import StringIO
 sys.path.append('plugins')
 
 from gcodeutils.gcode_tempcal import GCodeStepTempGradient
@@ -19,6 +23,10 @@ from gcodeutils.gcoder import GCode
 with open(filename, 'r') as gcode_file:  # pylint: disable=undefined-variable
     gcode = GCode(gcode_file)  # pylint: disable=redefined-outer-name,invalid-name
 
+# keep the original program if the gradient can't be created
+result = StringIO()
+GCodeStepTempGradient(gcode=gcode, start_temp=start_temp, end_temp=end_temp, min_z_change=min_z_change,
+                      steps=steps).write(result)
+
 with open(filename, 'w') as gcode_file:  # pylint: disable=undefined-variable
-    GCodeStepTempGradient(gcode=gcode, start_temp=start_temp, end_temp=end_temp, min_z_change=min_z_change,
-                          steps=steps).write(gcode_file)
+    gcode_file.write(result.getvalue())
-- 
2.43.0


From 9b4ca56dc9703776d32a8c363a558f74c0b20b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 32/60] fix: stretched lines keep their own feed rate, comments
 and other words

---
 gcodeutils/stretch/stretch.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 43de48a..0c1ef6b 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -308,10 +308,10 @@ class StretchFilter:
     def __init__(self, **kwargs):
         self.edgeWidth = 0.4
         self.extruderActive = False
-        self.feedRateMinute = 959.0
         self.isLoop = False
         self.oldLocation = None
         self.gcode = None
+        self.original_raws = None
         self.current_layer = None
         self.line_number_in_layer = 0
         self.stretchRepository = StretchRepository(**kwargs)
@@ -324,6 +324,7 @@ class StretchFilter:
     def filter(self, gcode):
         """Parse gcode text and store the stretch gcode."""
         self.gcode = gcode
+        self.original_raws = [[line.raw for line in layer] for layer in gcode.all_layers]
 
         self.setup_filter()
 
@@ -334,6 +335,10 @@ class StretchFilter:
                 parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
+            # the markers are no part of the program
+            for line, raw in zip(self.current_layer, self.original_raws[self.current_layer_index]):
+                line.raw = raw
+
     def get_cross_limited_stretch(self, crossLimitedStretch, crossLineIterator, locationComplex):
         """Get cross limited relative stretch for a location."""
         try:
@@ -387,7 +392,6 @@ class StretchFilter:
     def stretch_line(self, line):
         """Get stretched gcode line."""
         location = get_location_from_line(self.oldLocation, line)
-        self.feedRateMinute = line.f or self.feedRateMinute
         self.oldLocation = location
 
         # if thread_maximum_absolute_stretch is set (ie within a loop) and we're extruding or after to do so,
@@ -426,13 +430,14 @@ class StretchFilter:
         absoluteStretch = relativeStretch * self.thread_maximum_absolute_stretch
         stretchedPoint = location.dropAxis() + absoluteStretch
 
-        result = Line()
+        # keep the comments and the other words of the line
+        result = Line(self.original_raws[self.current_layer_index][self.line_number_in_layer])
         result.command = original_line.command
         result.imperial = original_line.imperial
         result.x = stretchedPoint.real
         result.y = stretchedPoint.imag
         result.z = original_line.z
-        result.f = self.feedRateMinute
+        result.f = original_line.f
 
         # TODO improve new extrusion length computation. It's clearly a very rough estimate
         if original_line.e is not None:
-- 
2.43.0


From c4cfe6d6bae3d7079979c39739f65e4a51674cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 33/60] fix: stretching prints no message amid the program

---
 gcodeutils/stretch/stretch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 0c1ef6b..714dd49 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -148,7 +148,7 @@ class LineIteratorForwardLegacy(object):
         for lineIndex in xrange(self.line_index - 1, 0, - 1):
             if StretchFilter.EXTRUSION_ON_MARKER in self.lines[lineIndex].raw:
                 return lineIndex + 1
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
     def index_in_valid_range(self):
@@ -200,7 +200,7 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -211,7 +211,7 @@ class LineIteratorForward(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                 return lineIndex + 1
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -230,7 +230,7 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                 return lineIndex
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -249,7 +249,7 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -272,7 +272,7 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 1
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
-- 
2.43.0


From 309394c6e4ee2aab8231fd3221353af55f7bd184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 34/60] fix: skeinforge programs without any edge width are
 stretched with the default one

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 714dd49..a894594 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -316,7 +316,7 @@ class StretchFilter:
         self.line_number_in_layer = 0
         self.stretchRepository = StretchRepository(**kwargs)
 
-        self.thread_maximum_absolute_stretch = 0
+        self.set_edge_width(self.edgeWidth)
 
         self.line_forward_iterator = LineIteratorForwardLegacy
         self.line_backward_iterator = LineIteratorBackwardLegacy
-- 
2.43.0


From c80db0e80047f5788c74ab2d47f984465c7c7e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 35/60] fix: the profile of Cura programs is read with Python 3
 too

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index a894594..f1dea3b 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -719,7 +719,7 @@ class CuraStretchFilter(StretchFilter):
             self.set_edge_width(0.4)
 
     def parse_cura_profile(self, cura_profile):
-        profileOpts, alt = zlib.decompress(base64.b64decode(cura_profile)).split('\f', 1)
+        profileOpts, alt = zlib.decompress(base64.b64decode(cura_profile)).decode('utf-8').split('\f', 1)
         for option in profileOpts.split('\b'):
             if len(option) > 0:
                 key, value = option.split('=', 1)
-- 
2.43.0


From 266ee6efedf521b55768d88d730eb62f5fac0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 36/60] fix: stretching considers where the head really is, and
 leaves relative moves alone

---
 gcodeutils/stretch/stretch.py | 43 +++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index f1dea3b..bca3ee5 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -94,7 +94,8 @@ import zlib
 
 import re
 
-from gcodeutils.gcoder import split, Line, parse_coordinates, unsplit, linear_move_gcodes
+from gcodeutils.gcoder import split, Line, parse_coordinates, unsplit, linear_move_gcodes, move_gcodes, \
+    GCODE_SET_POSITION_COMMAND, GCODE_HOME_COMMAND
 from .vector3 import Vector3
 
 __author__ = 'Enrique Perez (perez_enrique@yahoo.com)'
@@ -339,13 +340,37 @@ class StretchFilter:
             for line, raw in zip(self.current_layer, self.original_raws[self.current_layer_index]):
                 line.raw = raw
 
+    def get_machine_location(self, line):
+        """Get the location, in the X/Y plane, where a line ends, whatever the coordinates it gives."""
+        if line.current_x is None or line.current_y is None:
+            return get_location_from_line(self.oldLocation, line).dropAxis()
+        return complex(line.current_x, line.current_y)
+
+    def update_location(self, line):
+        """Keep track of the location in the coordinate system of the program, inside and outside of loops."""
+        if line.command == GCODE_SET_POSITION_COMMAND and line.x is None and line.y is None and line.z is None \
+                and line.e is None:
+            # no coordinate given is equivalent to all 0
+            self.oldLocation = Vector3()
+        elif line.command == GCODE_HOME_COMMAND:
+            if line.current_x is not None:
+                # homed axes are counted from the machine origin
+                axes = [bit[0] for bit in split(line) if bit[0] in ('x', 'y', 'z')] or ['x', 'y', 'z']
+                self.oldLocation = (self.oldLocation or Vector3()).copy()
+                for axis in axes:
+                    setattr(self.oldLocation, axis, getattr(line, 'current_' + axis))
+        elif line.command in move_gcodes and line.relative:
+            self.oldLocation = (self.oldLocation or Vector3()) + Vector3(line.x or 0., line.y or 0., line.z or 0.)
+        elif line.command in move_gcodes or line.command == GCODE_SET_POSITION_COMMAND:
+            self.oldLocation = get_location_from_line(self.oldLocation, line)
+
     def get_cross_limited_stretch(self, crossLimitedStretch, crossLineIterator, locationComplex):
         """Get cross limited relative stretch for a location."""
         try:
             line = crossLineIterator.get_next()
         except StopIteration:
             return crossLimitedStretch
-        pointComplex = get_location_from_line(self.oldLocation, line).dropAxis()
+        pointComplex = self.get_machine_location(line)
         pointMinusLocation = locationComplex - pointComplex
         pointMinusLocationLength = abs(pointMinusLocation)
         if pointMinusLocationLength <= self.crossLimitDistanceFraction:
@@ -374,7 +399,7 @@ class StretchFilter:
                 if locationMinusPointLength > 0.0:
                     return locationMinusPoint / locationMinusPointLength
                 return complex()
-            pointComplex = get_location_from_line(self.oldLocation, line).dropAxis()
+            pointComplex = self.get_machine_location(line)
             locationMinusPoint = lastLocationComplex - pointComplex
             locationMinusPointLength = abs(locationMinusPoint)
             totalLength += locationMinusPointLength
@@ -391,15 +416,12 @@ class StretchFilter:
 
     def stretch_line(self, line):
         """Get stretched gcode line."""
-        location = get_location_from_line(self.oldLocation, line)
-        self.oldLocation = location
-
         # if thread_maximum_absolute_stretch is set (ie within a loop) and we're extruding or after to do so,
         # adjust the point location to account for stretching
         if self.thread_maximum_absolute_stretch > 0.0:
             return self.get_stretched_line_from_index_location(self.line_number_in_layer - 1,
                                                                self.line_number_in_layer + 1,
-                                                               location,
+                                                               self.oldLocation,
                                                                line)
         return line
 
@@ -410,7 +432,7 @@ class StretchFilter:
         iteratorForward = self.line_forward_iterator(indexNextStart, self.current_layer)
         iteratorBackward = self.line_backward_iterator(indexPreviousStart, self.current_layer)
 
-        locationComplex = location.dropAxis()
+        locationComplex = self.get_machine_location(original_line)
 
         logging.debug("original point to stretch: %s", locationComplex)
 
@@ -493,8 +515,11 @@ class StretchFilter:
             self.isLoop = False
             self.set_stretch_to_path()
 
+        self.update_location(line)
+
         # handle move command if in loop
-        if line.command in linear_move_gcodes and self.isLoop and (line.x is not None or line.y is not None):
+        if line.command in linear_move_gcodes and self.isLoop and (line.x is not None or line.y is not None) \
+                and not line.relative:
             return self.stretch_line(line)
 
         return line
-- 
2.43.0


From 98eb82d9d44d323def9322d87d5ff0bad947599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 37/60] fix: each loop is stretched on its own, it neither goes
 on in a travel nor in the next loop or layer

---
 gcodeutils/stretch/stretch.py | 281 +++++++++++++++++-----------------
 1 file changed, 139 insertions(+), 142 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index bca3ee5..e7353c1 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -125,6 +125,21 @@ def dot_product(lhs, rhs):
     return lhs.real * rhs.real + lhs.imag * rhs.imag
 
 
+def is_point(line):
+    """Is a line a move in the X/Y plane ?"""
+    return line.command in linear_move_gcodes and (line.x is not None or line.y is not None)
+
+
+def is_loop_start(line):
+    """Does a loop begin with a line ?"""
+    return StretchFilter.LOOP_START_MARKER in line.raw
+
+
+def is_loop_limit(line):
+    """Is a line out of the loop of the preceding one ?"""
+    return is_loop_start(line) or StretchFilter.LOOP_STOP_MARKER in line.raw
+
+
 class LineIteratorForwardLegacy(object):
     """Forward line iterator class."""
 
@@ -206,75 +221,68 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
 
 
 class LineIteratorForward(LineIteratorForwardLegacy):
-    def reset_index_on_limit(self):
-        """Get index just after the activate command."""
-        self.logger.debug("reset index forward (modern)")
-        for lineIndex in xrange(self.line_index - 1, -1, - 1):
-            if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
-                return lineIndex + 1
-        self.logger.warning('This should never happen in stretch, no activate command was found for this thread.')
-        raise StopIteration("You've reached the end of the line.")
+    """Forward iterator going round the loop of a line, which ends at the next marker or with the lines."""
 
+    def index_on_limit(self):
+        """Has the iterator left the loop ?"""
+        return self.line_index >= len(self.lines) or is_loop_limit(self.lines[self.line_index])
 
-class CuraLineIteratorForward(LineIteratorForwardLegacy):
-    def __init__(self, line_index, lines):
-        super(CuraLineIteratorForward, self).__init__(line_index, lines)
-        self.stop_on_extrusion_off = False
-
-    def index_setup(self):
-        if StretchFilter.LOOP_STOP_MARKER in self.lines[self.line_index].raw:
-            self.line_index = self.reset_index_on_limit()
+    def get_next(self):
+        """Get next point of the loop or raise exception when having gone round it."""
 
-    def reset_index_on_limit(self):
-        """Get index just after the activate command."""
-        self.logger.debug("reset index forward (modern)")
-        for lineIndex in xrange(self.line_index - 1, -1, - 1):
-            if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
-                return lineIndex
-        self.logger.warning('This should never happen in stretch, no activate command was found for this thread.')
-        raise StopIteration("You've reached the end of the line.")
+        while True:
+            if self.index_on_limit():
+                self.line_index = self.reset_index_on_limit()
 
+            if self.line_index == self.first_visited_index:
+                self.logger.debug("went round the loop")
+                raise StopIteration("You've reached the end of the line.")
+            if self.first_visited_index is None:
+                self.first_visited_index = self.line_index
 
-class LineIteratorBackward(LineIteratorBackwardLegacy):
-    def index_setup(self):
-        if self.line_index < 0:
-            self.line_index = self.reset_index_on_limit()
-        elif StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
-            self.line_index = self.reset_index_on_limit()
+            line = self.lines[self.line_index]
+            self.line_index += self.increment
+            if is_point(line):
+                self.logger.debug("found (%d) %s %s", self.increment, line.x, line.y)
+                return line
 
     def reset_index_on_limit(self):
-        """Get index two lines before the deactivate command."""
-
-        self.logger.debug("reset index backward (modern)")
+        """Get index of the second vertex of the loop if it begins with a travel to the last one, of the first one
+        otherwise."""
+        self.logger.debug("reset index forward (modern)")
+        start_index = self.line_index - 1
+        while not is_loop_start(self.lines[start_index]):
+            start_index -= 1
+        if self.lines[start_index].e is None and start_index + 1 < self.line_index:
+            return start_index + 1
+        return start_index
 
-        for lineIndex in xrange(self.line_index + 1, len(self.lines)):
-            if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
-                return lineIndex - 2
-        self.logger.warning('This should never happen in stretch, no deactivate command was found for this thread.')
-        raise StopIteration("You've reached the end of the line.")
 
+class LineIteratorBackward(LineIteratorForward):
+    """Backward iterator going round the loop of a line."""
 
-class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
     def __init__(self, line_index, lines):
-        super(CuraLineIteratorBackward, self).__init__(line_index, lines)
-        self.stop_on_extrusion_off = False
+        super(LineIteratorBackward, self).__init__(line_index, lines)
+        self.increment = -1
 
-    def index_setup(self):
-        if self.line_index < 0:
-            self.line_index = self.reset_index_on_limit()
-        elif StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
-            self.line_index = self.reset_index_on_limit()
+    def index_on_limit(self):
+        """Has the iterator left the loop ?"""
+        return is_loop_start(self.lines[self.line_index + 1])
 
     def reset_index_on_limit(self):
-        """Get index two lines before the deactivate command."""
-
+        """Get index of the last but one vertex of the loop if it begins with a travel to the last one, of the last
+        one otherwise."""
         self.logger.debug("reset index backward (modern)")
-
-        for lineIndex in xrange(self.line_index + 1, len(self.lines)):
-            if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
-                return lineIndex - 1
-        self.logger.warning('This should never happen in stretch, no deactivate command was found for this thread.')
-        raise StopIteration("You've reached the end of the line.")
+        start_index = self.line_index + 1
+        last_index = start_index
+        for line_index in xrange(start_index + 1, len(self.lines)):
+            if is_loop_limit(self.lines[line_index]):
+                break
+            if is_point(self.lines[line_index]):
+                last_index = line_index
+        if self.lines[start_index].e is None and last_index > start_index:
+            return last_index - 1
+        return last_index
 
 
 class StretchRepository:
@@ -306,6 +314,8 @@ class StretchFilter:
     OUTER_EDGE_START_MARKER = LOOP_START_MARKER + ' stretch-outer-edge-start'
     LOOP_STOP_MARKER = 'stretch-loop-stop'
 
+    loops_end_with_layer = False
+
     def __init__(self, **kwargs):
         self.edgeWidth = 0.4
         self.extruderActive = False
@@ -331,6 +341,8 @@ class StretchFilter:
 
         for self.current_layer_index, current_layer in enumerate(self.gcode.all_layers):
             self.current_layer = current_layer[:]
+            if self.loops_end_with_layer:
+                self.set_stretch_to_path()
             for self.line_number_in_layer, line in enumerate(self.current_layer):
                 gcode_line = self.parse_line(line)
                 parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
@@ -550,6 +562,8 @@ class Slic3rStretchFilter(StretchFilter):
     EXTERNAL_PERIMETER = 1
     EXTRA_PERIMETER = 2
 
+    loops_end_with_layer = True
+
     EDGE_WIDTH_REGEXP = re.compile(r'; external perimeters extrusion width\s+=\s+([\.\d]+)mm')
 
     def __init__(self, **kwargs):
@@ -572,70 +586,63 @@ class Slic3rStretchFilter(StretchFilter):
                 logging.debug("found external perimeter inner")
                 line.raw += " ; " + StretchFilter.INNER_EDGE_START_MARKER
 
-            if self.current_type_line != self.EXTERNAL_PERIMETER:
-                logging.debug("found end of loop")
-                line.raw += " ; " + StretchFilter.LOOP_STOP_MARKER
-
             self.current_type_line = self.EXTERNAL_PERIMETER
 
         else:
             logging.debug("found extra perimeter")
             line.raw += " ; " + StretchFilter.LOOP_START_MARKER
 
-            if self.EXTERNAL_PERIMETER == self.current_type_line:
-                logging.debug("found end of loop")
-                line.raw += " ; " + StretchFilter.LOOP_STOP_MARKER
-
             self.current_type_line = self.EXTRA_PERIMETER
 
-    def setup_filter(self):
+    def check_perimeter(self, line, line_idx):
+        """Mark a move if a loop begins or ends with it."""
+        if not line.relative:
 
-        edge_width_found = False
-        extruding = False
+            if '; perimeter external' in line.raw:
 
-        for self.current_layer in self.gcode.all_layers:
-            self.next_external_perimeter_is_outer = True
-            self.current_type_line = self.UNKNOWN
-
-            for line_idx, line in enumerate(self.current_layer):
+                if self.EXTERNAL_PERIMETER != self.current_type_line:
+                    self.new_perimeter(line, True)
+                return
 
-                # checking extrusion
-                if not extruding and line.command in linear_move_gcodes and line.e is not None:
-                    extruding = True
-                    line.raw += " ; " + StretchFilter.EXTRUSION_ON_MARKER
-                elif extruding and line.command in linear_move_gcodes and line.e is None and self.current_type_line in (
-                        self.EXTRA_PERIMETER, self.EXTERNAL_PERIMETER):
-                    extruding = False
-                    line.raw += " ; " + StretchFilter.EXTRUSION_OFF_MARKER
+            if '; perimeter' in line.raw:
 
-                # checking perimeter type
-                if '; perimeter external' in line.raw:
+                if self.EXTRA_PERIMETER != self.current_type_line:
+                    self.new_perimeter(line)
+                return
 
-                    if self.EXTERNAL_PERIMETER != self.current_type_line:
+            if '; move to first perimeter point' in line.raw:
+                # search if next perimeter is external or not
+                for loop_ahead_idx in xrange(line_idx + 1, len(self.current_layer)):
+                    if '; perimeter external' in self.current_layer[loop_ahead_idx].raw:
                         self.new_perimeter(line, True)
+                        return
+                    elif '; perimeter' in self.current_layer[loop_ahead_idx].raw:
+                        self.new_perimeter(line)
+                        return
 
-                elif '; perimeter' in line.raw:
+        if self.current_type_line in (self.EXTRA_PERIMETER, self.EXTERNAL_PERIMETER):
+            logging.debug("found end of loop")
+            line.raw += " ; " + StretchFilter.LOOP_STOP_MARKER
 
-                    if self.EXTRA_PERIMETER != self.current_type_line:
-                        self.new_perimeter(line)
+        self.current_type_line = self.UNKNOWN
+
+    def setup_filter(self):
 
-                elif '; move to first perimeter point' in line.raw:
-                    # search if next perimeter is external or not
-                    for loop_ahead_idx in xrange(line_idx + 1, len(self.current_layer)):
-                        if '; perimeter external' in self.current_layer[loop_ahead_idx].raw:
-                            self.new_perimeter(line, True)
-                            break
-                        elif '; perimeter' in self.current_layer[loop_ahead_idx].raw:
-                            self.new_perimeter(line)
-                            break
+        edge_width_found = False
+        last_printed_z = None
 
-                elif 'unretract' not in line.raw:
+        for self.current_layer in self.gcode.all_layers:
+            # a layer goes on after a lift
+            if self.current_layer.printed and self.current_layer.z != last_printed_z:
+                last_printed_z = self.current_layer.z
+                self.next_external_perimeter_is_outer = True
+            self.current_type_line = self.UNKNOWN
 
-                    if self.current_type_line in (self.EXTRA_PERIMETER, self.EXTERNAL_PERIMETER):
-                        logging.debug("found end of loop")
-                        line.raw += " ; " + StretchFilter.LOOP_STOP_MARKER
+            for line_idx, line in enumerate(self.current_layer):
 
-                    self.current_type_line = self.UNKNOWN
+                # checking perimeter type, lines which aren't moves in the plane neither begin nor end a loop
+                if is_point(line):
+                    self.check_perimeter(line, line_idx)
 
                 # checking for edge width
                 match = self.EDGE_WIDTH_REGEXP.match(line.raw)
@@ -643,9 +650,6 @@ class Slic3rStretchFilter(StretchFilter):
                     edge_width_found = True
                     self.set_edge_width(float(match.group(1)))
 
-            if self.current_type_line != self.UNKNOWN:
-                logging.warn("unfinished loop")
-
         if not edge_width_found:
             logging.warn("no edge width found in comments, picking a default value")
             self.set_edge_width(0.4)
@@ -656,13 +660,15 @@ class CuraStretchFilter(StretchFilter):
     EXTERNAL_PERIMETER = 1
     EXTRA_PERIMETER = 2
 
+    loops_end_with_layer = True
+
     CURA_PROFILE_REGEXP = re.compile(r';CURA_PROFILE_STRING:(.*)$')
 
     def __init__(self, **kwargs):
         StretchFilter.__init__(self, **kwargs)
 
-        self.line_forward_iterator = CuraLineIteratorForward
-        self.line_backward_iterator = CuraLineIteratorBackward
+        self.line_forward_iterator = LineIteratorForward
+        self.line_backward_iterator = LineIteratorBackward
 
     def new_perimeter(self, line, external=False, outer=False):
 
@@ -674,65 +680,56 @@ class CuraStretchFilter(StretchFilter):
                 logging.debug("found external perimeter inner")
                 line.raw += " ; " + StretchFilter.INNER_EDGE_START_MARKER
 
-            if self.current_type_line != self.UNKNOWN:
-                logging.debug("found end of loop")
-                line.raw += " ; " + StretchFilter.LOOP_STOP_MARKER
-
             self.current_type_line = self.EXTERNAL_PERIMETER
 
         else:
             logging.debug("found extra perimeter")
             line.raw += " ; " + StretchFilter.LOOP_START_MARKER
 
-            if self.current_type_line != self.UNKNOWN:
-                logging.debug("found end of loop")
-                line.raw += " ; " + StretchFilter.LOOP_STOP_MARKER
-
             self.current_type_line = self.EXTRA_PERIMETER
 
+    def is_followed_by_extrusion(self, line_idx):
+        """Is the next move in the plane an extrusion of the same type ?"""
+        for line in self.current_layer[line_idx + 1:]:
+            if ';TYPE:' in line.raw or ';LAYER:' in line.raw:
+                return False
+            if is_point(line):
+                return line.e is not None and not line.relative
+        return False
+
     def setup_filter(self):
 
         edge_width_found = False
-        extruding = False
+        shell_type = None
 
         for self.current_layer in self.gcode.all_layers:
             self.current_type_line = self.UNKNOWN
-            next_line_marker = None
 
             for line_idx, line in enumerate(self.current_layer):
 
-                # checking extrusion
-                if not extruding and line.command in linear_move_gcodes and line.e is not None:
-                    extruding = True
-                    line.raw += " ; " + StretchFilter.EXTRUSION_ON_MARKER
-                elif extruding and line.command in linear_move_gcodes and line.e is None and self.current_type_line in (
-                        self.EXTRA_PERIMETER, self.EXTERNAL_PERIMETER):
-                    extruding = False
-                    line.raw += " ; " + StretchFilter.EXTRUSION_OFF_MARKER
-
-                if next_line_marker is not None:
-                    self.new_perimeter(line, *next_line_marker)
-                    next_line_marker = None
-
                 # checking perimeter type
-                if 'TYPE:WALL-OUTER' in line.raw:
-                    self.stop_loop(line)
-                    next_line_marker = (True, True)
-
-                elif 'TYPE:WALL-INNER' in line.raw:
+                if ';TYPE:' in line.raw or ';LAYER:' in line.raw:
                     self.stop_loop(line)
-                    next_line_marker = (True, False)
 
-                elif 'TYPE:SKIN' in line.raw:
-                    self.stop_loop(line)
-                    next_line_marker = (False, False)
-
-                elif 'TYPE:FILL' in line.raw:
-                    self.stop_loop(line)
-
-                # end loop if we reach the end of the current layer
-                if line_idx == len(self.current_layer) - 1:
-                    self.stop_loop(line)
+                    if 'TYPE:WALL-OUTER' in line.raw:
+                        shell_type = (True, True)
+                    elif 'TYPE:WALL-INNER' in line.raw:
+                        shell_type = (True, False)
+                    elif 'TYPE:SKIN' in line.raw:
+                        shell_type = (False, False)
+                    else:
+                        shell_type = None
+
+                elif is_point(line) and shell_type is not None:
+                    # a loop begins with its first extrusion, or with the travel just before it
+                    if line.relative:
+                        self.stop_loop(line)
+                    elif line.e is None and self.is_followed_by_extrusion(line_idx):
+                        self.new_perimeter(line, *shell_type)
+                    elif line.e is None:
+                        self.stop_loop(line)
+                    elif self.current_type_line == self.UNKNOWN:
+                        self.new_perimeter(line, *shell_type)
 
                 # checking for edge width
                 match = self.CURA_PROFILE_REGEXP.match(line.raw)
-- 
2.43.0


From 517a8fd3260e237b1d1a011839aef654bfa44779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 38/60] fix: the stretch of a program doesn't depend on the one
 stretched before

---
 gcodeutils/stretch/stretch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index e7353c1..544925a 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -335,6 +335,11 @@ class StretchFilter:
     def filter(self, gcode):
         """Parse gcode text and store the stretch gcode."""
         self.gcode = gcode
+        # forget the previous program
+        self.oldLocation = None
+        self.set_stretch_to_path()
+        self.set_edge_width(0.4)
+
         self.original_raws = [[line.raw for line in layer] for layer in gcode.all_layers]
 
         self.setup_filter()
-- 
2.43.0


From cf97a296162b01ddcfdf1482264c893536633ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 39/60] fix: stretching terminates when a skeinforge thread
 holds no point

---
 gcodeutils/stretch/stretch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 544925a..2bb27b8 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -174,6 +174,7 @@ class LineIteratorForwardLegacy(object):
         """Get next line going backward or raise exception."""
 
         self.index_setup()
+        was_reset = False
 
         while self.index_in_valid_range():
 
@@ -185,6 +186,10 @@ class LineIteratorForwardLegacy(object):
 
             line = self.lines[self.line_index]
             if StretchFilter.EXTRUSION_OFF_MARKER in line.raw and self.stop_on_extrusion_off:
+                if was_reset:
+                    self.logger.debug("no point in thread")
+                    raise StopIteration("You've reached the end of the line.")
+                was_reset = True
                 self.line_index = self.reset_index_on_limit()
                 continue
 
-- 
2.43.0


From fe7447ea921d6841c36f9295aefbb3f377143da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 40/60] fix: vectors which are equal have the same hash

---
 gcodeutils/stretch/vector3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/stretch/vector3.py b/gcodeutils/stretch/vector3.py
index 2c0ef3e..972e0ee 100644
--- a/gcodeutils/stretch/vector3.py
+++ b/gcodeutils/stretch/vector3.py
@@ -84,8 +84,8 @@ class Vector3:
         return Vector3(self.x // other, self.y // other, self.z // other)
 
     def __hash__(self):
-        'Determine whether this vector is identical to other one.'
-        return self.__repr__().__hash__()
+        'Get a hash which is the same for identical vectors.'
+        return hash((self.x, self.y, self.z))
 
     def __iadd__(self, other):
         'Add other Vector3 to this one.'
-- 
2.43.0


From 04766943b3953abc1fcf8565630728968d6b17ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 41/60] fix: the zero vector is false with Python 3 too

---
 gcodeutils/stretch/vector3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcodeutils/stretch/vector3.py b/gcodeutils/stretch/vector3.py
index 972e0ee..6d8316a 100644
--- a/gcodeutils/stretch/vector3.py
+++ b/gcodeutils/stretch/vector3.py
@@ -143,6 +143,8 @@ class Vector3:
     def __nonzero__(self):
         return self.x != 0 or self.y != 0 or self.z != 0
 
+    __bool__ = __nonzero__
+
     def __rdiv__(self, other):
         'Get a new Vector3 by dividing each component of this one.'
         return Vector3(other / self.x, other / self.y, other / self.z)
-- 
2.43.0


From 7f2ac0dcaa408d9b785c136168aeee8bef818c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 42/60] fix: heights given in inches are recognized when coming
 back to them

---
 gcodeutils/gcoder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 2210cb4..f000cca 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -680,14 +680,14 @@ class GCode(object):
 
                     # FIXME : looks like this needs to be tested with "lift Z on move"
                     if line.z is not None:
+                        # without the noise of binary fractions, to recognize a height when coming back
                         if line.command == "G92":
-                            cur_z = line.z
+                            cur_z = round(line.z, 6)
                         elif line.is_move:
                             if line.relative and cur_z is not None:
-                                # without the noise of binary fractions, to recognize a height when coming back
                                 cur_z = round(cur_z + line.z, 6)
                             else:
-                                cur_z = line.z
+                                cur_z = round(line.z, 6)
 
                     # FIXME: the logic behind this code seems to work, but it might be
                     # broken
-- 
2.43.0


From df48bd162ab41e78e4b3c7d69a7e9304b32ff9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 43/60] fix: an empty program has an empty summary instead of
 none

---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index f000cca..6d5b57f 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -327,7 +327,7 @@ class GCode(object):
 
     def prepare(self, data=None, home_pos=None, layer_callback=None, line_callback=None):
         self.home_pos = home_pos
-        if data:
+        if data is not None:
             line_class = self.line_class
             self.lines = [line_class(l2) for l2 in
                           (l.strip() for l in data)
@@ -338,6 +338,7 @@ class GCode(object):
             self.lines = []
             self.append_layer_id = 0
             self.append_layer = Layer([])
+            self.append_layer.duration = 0
             self.all_layers = [self.append_layer]
             self.all_zs = set()
             self.layers = {}
-- 
2.43.0


From 09273f9122dff41e6706541e7bc7b7d0f0dc5ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 44/60] fix: the summary of a program is printed with Python
 3.11 and later too

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 6d5b57f..f98ce75 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -877,7 +877,7 @@ def main():
 
     print("Line object size:", sys.getsizeof(Line("G0 X0")))
     print("Light line object size:", sys.getsizeof(LightLine("G0 X0")))
-    gcode = GCode(open(sys.argv[1], "rU"))
+    gcode = GCode(open(sys.argv[1], "r"))
 
     print("Dimensions:")
     xdims = (gcode.xmin, gcode.xmax, gcode.width)
-- 
2.43.0


From 6817c99deba73922f96333aae3ccef5e540fa0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 45/60] fix: the translation or conversion of a program doesn't
 depend on the one filtered before

---
 gcodeutils/filter/relative_extrusion.py | 8 ++++++++
 gcodeutils/filter/translate.py          | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/gcodeutils/filter/relative_extrusion.py b/gcodeutils/filter/relative_extrusion.py
index f424df6..6f597a7 100644
--- a/gcodeutils/filter/relative_extrusion.py
+++ b/gcodeutils/filter/relative_extrusion.py
@@ -11,11 +11,19 @@ __author__ = 'olivier'
 
 class GCodeToRelativeExtrusionFilter(GCodeFilter):
     def __init__(self):
+        self.reset()
+
+    def reset(self):
         self.relative_extrusion = False
         # extrusion mode in force in the converted program
         self.converted_relative_extrusion = False
         self.current_extrusion_distance = Decimal()
 
+    def filter(self, gcode):
+        # nothing of the program filtered before applies to this one
+        self.reset()
+        super(GCodeToRelativeExtrusionFilter, self).filter(gcode)
+
     def opcode_filter(self, opcode):
         if opcode.command == GCODE_RELATIVE_EXTRUSION_COMMAND:
             self.relative_extrusion = True
diff --git a/gcodeutils/filter/translate.py b/gcodeutils/filter/translate.py
index 8d7103f..08a743d 100644
--- a/gcodeutils/filter/translate.py
+++ b/gcodeutils/filter/translate.py
@@ -13,7 +13,9 @@ class GCodeXYTranslateFilter(GCodeFilter):
     def __init__(self, x=None, y=None, **kwargs):
         self.translate_x = x or 0.
         self.translate_y = y or 0.
+        self.reset()
 
+    def reset(self):
         # amount left to add to the absolute coordinates, 0 once a G92 made the translated position the reference
         self.shift_x = self.translate_x
         self.shift_y = self.translate_y
@@ -28,6 +30,11 @@ class GCodeXYTranslateFilter(GCodeFilter):
 
         self.absolute_distance_mode = None  # None if when it is unknown
 
+    def filter(self, gcode):
+        # nothing of the program filtered before applies to this one
+        self.reset()
+        super(GCodeXYTranslateFilter, self).filter(gcode)
+
     def generate_translation(self, opcode):
         """create the travel which translates the axes just homed, in the relative mode of the given move"""
         result = Line()
-- 
2.43.0


From 133a8a32ee6ca7ae516450696bda08893d7dc8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 46/60] fix: the first external loop is the outer one in
 programs which give no height too

---
 gcodeutils/stretch/stretch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 2bb27b8..2202fc8 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -639,7 +639,9 @@ class Slic3rStretchFilter(StretchFilter):
     def setup_filter(self):
 
         edge_width_found = False
-        last_printed_z = None
+        # height of the layer being printed, none yet
+        last_printed_z = False
+        self.next_external_perimeter_is_outer = True
 
         for self.current_layer in self.gcode.all_layers:
             # a layer goes on after a lift
-- 
2.43.0


From dd001147e4edd9fa5d53ad1cadbd8906e914d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 47/60] fix: stretching terminates whatever the lines around a
 skeinforge thread

---
 gcodeutils/stretch/stretch.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 2202fc8..a6fc8d2 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -152,12 +152,21 @@ class LineIteratorForwardLegacy(object):
         self.lines = lines
         self.increment = 1
         self.stop_on_extrusion_off = True
+        self.was_reset = False
 
         self.logger.debug("started iterator with line_index = %d", self.line_index)
 
     def index_setup(self):
         pass
 
+    def reset_index(self):
+        """Go on from the other end of the thread, once."""
+        if self.was_reset:
+            self.logger.debug("went round the thread")
+            raise StopIteration("You've reached the end of the line.")
+        self.was_reset = True
+        self.line_index = self.reset_index_on_limit()
+
     def reset_index_on_limit(self):
         """Get index just after the activate command."""
         self.logger.debug("reset index forward")
@@ -174,7 +183,6 @@ class LineIteratorForwardLegacy(object):
         """Get next line going backward or raise exception."""
 
         self.index_setup()
-        was_reset = False
 
         while self.index_in_valid_range():
 
@@ -186,11 +194,7 @@ class LineIteratorForwardLegacy(object):
 
             line = self.lines[self.line_index]
             if StretchFilter.EXTRUSION_OFF_MARKER in line.raw and self.stop_on_extrusion_off:
-                if was_reset:
-                    self.logger.debug("no point in thread")
-                    raise StopIteration("You've reached the end of the line.")
-                was_reset = True
-                self.line_index = self.reset_index_on_limit()
+                self.reset_index()
                 continue
 
             self.line_index += self.increment
@@ -211,7 +215,7 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
 
     def index_setup(self):
         if self.line_index < 1:
-            self.line_index = self.reset_index_on_limit()
+            self.reset_index()
 
     def reset_index_on_limit(self):
         """Get index two lines before the deactivate command."""
-- 
2.43.0


From 2062af3e9514de4b981cec909a5a7361f2fdcf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 48/60] fix: opposite feedrates don't divide the duration of a
 move by zero

---
 gcodeutils/gcoder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index f98ce75..946150e 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -662,10 +662,13 @@ class GCode(object):
                             if distance <= currenttravel and lastf + f != 0 and f != 0:
                                 moveduration = 2 * distance / (lastf + f)  # This is distance / mean(lastf, f)
                                 moveduration += (currenttravel - distance) / f
-                            else:
+                            elif lastf + f != 0:
                                 moveduration = 2 * currenttravel / (lastf + f)  # This is currenttravel / mean(lastf, f)
                                 # FIXME: probably a little bit optimistic, but probably a much better estimate than the previous one:
                                 # moveduration = math.sqrt(2 * distance / acceleration) # probably buggy : not taking actual travel into account
+                            else:
+                                # opposite feedrates
+                                moveduration = 0.
 
                         lastdx = dx
                         lastdy = dy
-- 
2.43.0


From 99181b9cd090bb5913bdf68841160fb8bad06c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 49/60] fix: a program whose duration is too long for a
 timedelta can be loaded

---
 gcodeutils/gcoder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 946150e..9164ad9 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -808,7 +808,10 @@ class GCode(object):
             self.height = self.zmax - self.zmin
 
             # Finalize duration
-            totaltime = datetime.timedelta(seconds=int(totalduration))
+            try:
+                totaltime = datetime.timedelta(seconds=int(totalduration))
+            except OverflowError:
+                totaltime = datetime.timedelta.max
             self.duration = totaltime
 
     def idxs(self, i):
-- 
2.43.0


From 3b7c6b037f942a023f61ec059aa1ed6c49de075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 50/60] fix: the start of a loop shorter than the stretch
 distance isn't moved by rounding noise

---
 gcodeutils/stretch/stretch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index a6fc8d2..256395f 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -422,7 +422,8 @@ class StretchFilter:
             except StopIteration:
                 locationMinusPoint = locationComplex - pointComplex
                 locationMinusPointLength = abs(locationMinusPoint)
-                if locationMinusPointLength > 0.0:
+                # going round the whole loop ends at the location, up to the noise of binary fractions
+                if locationMinusPointLength > 1e-6:
                     return locationMinusPoint / locationMinusPointLength
                 return complex()
             pointComplex = self.get_machine_location(line)
-- 
2.43.0


From e17809b7b5d0f79c0287a95aa051f6c40a49edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 51/60] fix: an absolute extruder position that doesn't change
 isn't an extrusion by rounding noise after G92

---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 9164ad9..f4ad6ac 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -595,7 +595,8 @@ class GCode(object):
                             current_e += line.e
                         else:
                             new_e = line.e + offset_e
-                            line.extruding = new_e > current_e
+                            # without the noise of binary fractions, an unchanged position feeds nothing
+                            line.extruding = round(new_e - current_e, 9) > 0
                             total_e += new_e - current_e
                             current_e = new_e
                         max_e = max(max_e, total_e)
-- 
2.43.0


From 884f6446d0fb9b6c7eabd8544603dddb7decab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 52/60] fix: segments which repeat their height are turned into
 arcs after G92 Z too

---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 3245f49..97e0a23 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -307,7 +307,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         valid_e = all([line.e is not None for line in self.queue[1:]]) if all_e else \
             not any([line.e is not None for line in self.queue[1:]])
         valid_f = all([line.current_f == cur_f for line in self.queue[1:]])
-        valid_z = all([line.current_z == cur_z for line in self.queue[1:]])
+        valid_z = all([abs(line.current_z - cur_z) < EPSILON for line in self.queue[1:]])
         if not (valid_e and valid_f and valid_z):
             return True, None
         if all_e:
-- 
2.43.0


From bdf252dbca1ab887e75c194f68a7ed5dcd5098a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:58 +0000
Subject: [PATCH 53/60] fix: a printed height goes on after a lift when heights
 have thousandths of a millimetre too

---
 gcodeutils/stretch/stretch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 256395f..0db1d56 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -649,9 +649,11 @@ class Slic3rStretchFilter(StretchFilter):
         self.next_external_perimeter_is_outer = True
 
         for self.current_layer in self.gcode.all_layers:
-            # a layer goes on after a lift
-            if self.current_layer.printed and self.current_layer.z != last_printed_z:
-                last_printed_z = self.current_layer.z
+            # a layer goes on after a lift, heights are those of layers which may be rounded to 0.01 mm
+            z = self.current_layer.z
+            z = z if z is None else round(z, 2)
+            if self.current_layer.printed and z != last_printed_z:
+                last_printed_z = z
                 self.next_external_perimeter_is_outer = True
             self.current_type_line = self.UNKNOWN
 
-- 
2.43.0


From 15424bb889d1cb7b1578c0967da709f4522ae836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 54/60] fix: printed layers are recognised whatever the
 iterator's digits of precision

---
 gcodeutils/visit/iterator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 07ca2a1..5fb8bdf 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -34,12 +34,14 @@ class GCodeIterator(object):
         self.__gcode = gcode
         self.__digits_of_precision = digits_of_precision
         self.__logger = logging.getLogger(LOGGER_NAME)
-        self.__all_zs = sorted(
-            set(round(z, self.__digits_of_precision) for z in self.__gcode.all_zs)
-        )
+        self.__all_zs = sorted(set(self.__height(z) for z in self.__gcode.all_zs))
         self.__logger.debug("  all_zs: %s", self.__all_zs)
         self.__logger.debug("  %s layers: %s", PRINTED_LAYER_KIND, len(self.__all_zs))
 
+    def __height(self, z):
+        # layers know their height to 0.01 mm only
+        return round(round(z, 2), self.__digits_of_precision)
+
     def accept(self, visitor):
         """Walk the GCode structure and visit each layer and each line
         """
@@ -50,7 +52,7 @@ class GCodeIterator(object):
             is_printed = False
             # a lift to a height printed elsewhere is no printed layer
             if parsed_layer.printed and parsed_layer.z is not None:
-                layer_z = round(parsed_layer.z, self.__digits_of_precision)
+                layer_z = self.__height(parsed_layer.z)
                 is_printed = layer_z in self.__all_zs
             layer_number = self.__all_zs.index(layer_z) if is_printed else parsed_layer_number
 
-- 
2.43.0


From a4eb3ec331607669f5ef30e017e9b0f7f1cfe530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:58 +0000
Subject: [PATCH 55/60] fix: the duration of a move after a right angle doesn't
 depend on rounding noise

---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index f4ad6ac..6494d47 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -645,7 +645,8 @@ class GCode(object):
                         # travelled distance, without the noise of binary fractions
                         dx = round(current_x - start_x, 9)
                         dy = round(current_y - start_y, 9)
-                        if dx * lastdx + dy * lastdy <= 0:
+                        # a right angle isn't in the same direction, whatever the rounding of the products
+                        if dx * lastdx + dy * lastdy <= 1e-12 * (abs(dx * lastdx) + abs(dy * lastdy)):
                             lastf = 0
 
                         currenttravel = math.hypot(dx, dy)
-- 
2.43.0


From 6cf6246f0f36e448bf31c5f0f8886c81c64b5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:40 +0000
Subject: [PATCH 56/60] fix: filament fed back after a retraction isn't counted
 as fed by rounding noise

---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 6494d47..4e9009a 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -599,7 +599,8 @@ class GCode(object):
                             line.extruding = round(new_e - current_e, 9) > 0
                             total_e += new_e - current_e
                             current_e = new_e
-                        max_e = max(max_e, total_e)
+                        # without the noise of binary fractions, what is fed back after a retraction adds nothing
+                        max_e = max(max_e, round(total_e, 9))
                     elif line.command == "G92":
                         offset_e = current_e - line.e
                 line.current_e = current_e
-- 
2.43.0


From ce54c3dcaac5e8a27b735719fef46aaacd3d649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:49 +0000
Subject: [PATCH 57/60] fix: the layer at height 0 gets its temperature when it
 is above the minimum height

---
 gcodeutils/gcode_tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 0638090..ec97528 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -90,7 +90,7 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
             if layer:
                 self.current_z = self.get_layer_height(layer)
 
-                if self.current_z and self.zmin <= self.current_z <= self.zmax:
+                if self.current_z is not None and self.zmin <= self.current_z <= self.zmax:
 
                     raw_target_temp = self.get_temp_for_current_layer()
                     if raw_target_temp is not None:
-- 
2.43.0


From b20fa0bf78b1719b9cd13efbf78ed3cdc1a93dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 58/60] fix: a lift ends a layer of a print which rises a
 little with every move

---
 gcodeutils/gcoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 4e9009a..e2cdfad 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -718,7 +718,9 @@ class GCode(object):
                         else:
                             base_z = prev_z
 
-                        if base_z != prev_base_z:
+                        # a lift ends a layer, even one which rises a little with every move
+                        is_jump = prev_z is not None and abs(cur_z - prev_z) >= 0.02
+                        if base_z != prev_base_z or is_jump:
                             new_layer = Layer(cur_lines, base_z)
                             new_layer.printed = cur_layer_has_extrusion
                             new_layer.duration = totalduration - layerbeginduration
-- 
2.43.0


From 46bfeb67984fceb8b302872f908e34c731d7775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 59/60] fix: printed layers are recognised in prints which rise
 a little with every move

---
 gcodeutils/visit/iterator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 5fb8bdf..2c5d157 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -34,7 +34,9 @@ class GCodeIterator(object):
         self.__gcode = gcode
         self.__digits_of_precision = digits_of_precision
         self.__logger = logging.getLogger(LOGGER_NAME)
-        self.__all_zs = sorted(set(self.__height(z) for z in self.__gcode.all_zs))
+        # heights as the layers report them, which is the base of a layer rising a little with every move
+        self.__all_zs = sorted(set(self.__height(layer.z) for layer in self.__gcode.all_layers
+                                   if layer.printed and layer.z is not None))
         self.__logger.debug("  all_zs: %s", self.__all_zs)
         self.__logger.debug("  %s layers: %s", PRINTED_LAYER_KIND, len(self.__all_zs))
 
-- 
2.43.0


From 350214445b84e6a45fba2265921ef8d3aa3e1777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 60/60] fix: keep a comment as the possible start of a circle,
 however long the queue before it

---
 gcodeutils/filter/arc_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 97e0a23..22fa9c5 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -408,6 +408,9 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                     # flush the queue as we have a GCode resetting the processing
                     result = self.queue
                 self.queue = []
+                if result[-1].command is None:
+                    # a circle may start at the position of a comment, keep it in the queue
+                    self.queue = [result.pop()]
                 return result
             else:
                 error, circle = self.queue_valid()
-- 
2.43.0

