From 74e06766964e6ccd720f6e1fd5c0e43167d088c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 01/10] fix: solvers.solve() does not end for sudokus without a
 solution

CalculateCandidates was found again and again for fields without any
possible candidate, so solve(), rate() and score() never returned.
---
 sudokutools/solvers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index e86cc97..24386d7 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -569,8 +569,18 @@ def solve(sudoku, report=lambda step: None):
     solution = sudoku.copy()
     init_candidates(solution, filled_only=True)
 
+    # Missing candidates are calculated only once. A field, which has no
+    # candidates after that, belongs to a sudoku without a solution and
+    # calculating its candidates over and over would never end.
+    for step in CalculateCandidates.find(solution):
+        report(step)
+        step.apply(solution)
+
     while True:
         for cls in SOLVERS:
+            if cls == CalculateCandidates:
+                continue
+
             count = 0
 
             for step in cls.find(solution):
-- 
2.43.0


From 9299bed6b3e1f3a14b64c8ba7e54906db2d3f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 02/10] fix: view() ignores the number_sep argument

---
 sudokutools/sudoku.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 6539d81..76a2195 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -589,10 +589,11 @@ def view(
     """
 
     max_length = max([len(str(n)) for n in sudoku.numbers])
-    if max_length > 1:
-        number_sep = ","
-    else:
-        number_sep = ""
+    if number_sep is None:
+        if max_length > 1:
+            number_sep = ","
+        else:
+            number_sep = ""
 
     # In case, candidates aren't calculated yet, this gives a
     # better representation.
-- 
2.43.0


From 6a62b865bd0670ed6eed5962370f201035c448fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 03/10] fix: shell cannot print results which are not strings

The commands get and get_candidates failed with a TypeError.
---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 20c2ecb..90e40fa 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -327,7 +327,7 @@ class Shell(object):
         self.stack = []
 
     def _print(self, s, end='\n'):
-        self.outfile.write(s + end)
+        self.outfile.write(str(s) + end)
         self.outfile.flush()
 
     def error(self, s):
-- 
2.43.0


From 46b50c40d90e3f4dae55e6c0c26c972768a492ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 04/10] fix: help command of the shell fails on Python >= 3.11

inspect.getargspec() was removed there.
---
 sudokutools/shell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 90e40fa..270b807 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -198,7 +198,12 @@ def signature_str(func):
         'a b=3'
     """
     arg_str = []
-    spec = inspect.getargspec(func)
+    # getargspec() doesn't exist since Python 3.11 and
+    # getfullargspec() doesn't exist in Python 2.
+    if hasattr(inspect, "getfullargspec"):
+        spec = inspect.getfullargspec(func)
+    else:
+        spec = inspect.getargspec(func)
     args, defaults = spec.args, spec.defaults
 
     # ignore first argument on methods.
-- 
2.43.0


From b5244d02f61b4e0b64405040b2da7f602897fc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 05/10] fix: arguments which cannot be evaluated crash the
 shell

literal_eval() raises a TypeError for arguments like {[1]} and a
MemoryError or RecursionError for deeply nested ones.
---
 sudokutools/shell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 270b807..33c37a1 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -253,7 +253,9 @@ def parse(s):
                     else:
                         args.append(literal_eval(value))
 
-            except (SyntaxError, ValueError):
+            # literal_eval() fails with any of these, depending on the text.
+            except (SyntaxError, ValueError, TypeError,
+                    MemoryError, RuntimeError):
                 raise ValueError("Invalid argument: %s " % value +
                                  "(Did you forget quotation marks?)")
 
-- 
2.43.0


From f2f489d3fa565676d0d7371368f5ff92185734db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 06/10] fix: empty line crashes the game shell

---
 sudokutools/shell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 33c37a1..f67315e 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -84,6 +84,8 @@ class GameShell(object):
             print("> ", end="")
             line = input()
             splitted = line.split()
+            if not splitted:
+                continue
             command = splitted[0]
 
             if command == "hint":
-- 
2.43.0


From de28c5187901a1bd7fe2900ecd1f817ab0f4d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 07/10] fix: settings command crashes the game shell

---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index f67315e..3dec3a5 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -116,7 +116,7 @@ class GameShell(object):
                     print(s)
             elif command == "settings":
                 for key in sorted(self.settings):
-                    value, desc = self.settings[key]
+                    value, desc = self.settings[key], self.settings_desc[key]
                     s = "%s = %s" % (key, value)
                     s = s.ljust(20, " ")
                     s += " # %s" % desc
-- 
2.43.0


From 108f329b5ef27739d5052a5834979b8b4ffab95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 08/10] fix: decode() accepts or fails with TypeError for
 malformed coordinates

A letter without a number at the end of a group (r1c, r) and a letter
directly following itself (r1r2) were not rejected with a ValueError.
---
 sudokutools/notation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index bece0f8..dba931a 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -227,7 +227,7 @@ def _decode_single(group, width=3, height=3, nsep=""):
     number_str = ""     # An accumulation of all numbers for the current item.
 
     for c in group:
-        if c in present:
+        if c in present or c == current:
             raise ValueError(
                 "Malformed group '%s'. '%s' has multiple occurrences." %
                 (group, c))
@@ -268,6 +268,11 @@ def _decode_single(group, width=3, height=3, nsep=""):
         else:
             numbers = [int(n) - 1 for n in number_str.split(nsep)]
 
+        if not numbers:
+            raise ValueError(
+                "Malformed group '%s'. No numbers given for '%s'" %
+                (group, current))
+
         all_numbers[current] = numbers
     elif not present:
         raise ValueError("Empty group '%s'" % group)
-- 
2.43.0


From ac89f2ba5fe13518ffd07f3ab48014a0579351c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 09/10] fix: encode_action() fails for every action

Numbers were joined with strings and the text of a RemoveCandidates
action was never returned.
---
 sudokutools/notation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index dba931a..5c062da 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -291,11 +291,12 @@ def _decode_single(group, width=3, height=3, nsep=""):
 def encode_action(action, width=3, height=3):
     if isinstance(action, SetNumber):
         s = encode(action.coordinates, width=width, height=height)
-        s += "=" + action.number
+        s += "=" + str(action.number)
         return s
     elif isinstance(action, RemoveCandidates):
         s = encode(action.coordinates, width=width, height=height)
-        s += "<>" + "".join(sorted(action.candidates))
+        s += "<>" + "".join([str(c) for c in sorted(action.candidates)])
+        return s
 
 
 def decode_action(s, width=3, height=3):
-- 
2.43.0


From 0080ebe1c3b366e86b1aca8d30573c57b8e40198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 10/10] fix: help of the shell shows default values of other
 arguments

The index of the default value was only right for functions with as
many other arguments as arguments with default values.
---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 3dec3a5..bf55e6c 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -214,7 +214,7 @@ def signature_str(func):
 
     for i, name in enumerate(args):
         if spec.defaults and i >= len(args) - len(defaults):
-            j = i - len(defaults)
+            j = i - len(args)
             arg_str.append("%s=%s" % (name, repr(defaults[j])))
         else:
             arg_str.append(name)
-- 
2.43.0

