From b15b958bbaecd1bb177a881b7f5fa56118119d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 01/27] fix: show the real signature of a command in help

inspect.getargspec() is gone since Python 3.11, so every help failed, and
the index of the default value was counted from the wrong end, so that a
parameter was shown with the default of another one.
---
 sudokutools/shell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 20c2ecb..92ba16e 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -198,7 +198,7 @@ def signature_str(func):
         'a b=3'
     """
     arg_str = []
-    spec = inspect.getargspec(func)
+    spec = inspect.getfullargspec(func)
     args, defaults = spec.args, spec.defaults
 
     # ignore first argument on methods.
@@ -207,7 +207,7 @@ def signature_str(func):
 
     for i, name in enumerate(args):
         if spec.defaults and i >= len(args) - len(defaults):
-            j = i - len(defaults)
+            j = i - len(args)
             arg_str.append("%s=%s" % (name, repr(defaults[j])))
         else:
             arg_str.append(name)
-- 
2.43.0


From d8623a3f134bbf129a4c7864be99df58635bcc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 02/27] fix: let solve() end for unsolvable sudokus

A field without remaining candidates got its candidates calculated again
in every round, so the loop never ended.
---
 sudokutools/solvers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index e86cc97..5033def 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -569,8 +569,17 @@ def solve(sudoku, report=lambda step: None):
     solution = sudoku.copy()
     init_candidates(solution, filled_only=True)
 
+    # Candidates are calculated once: a field, which has none left later on
+    # (the sudoku is unsolvable), must not get them back again and again.
+    for step in CalculateCandidates.find(solution):
+        report(step)
+        step.apply(solution)
+
     while True:
         for cls in SOLVERS:
+            if cls == CalculateCandidates:
+                continue
+
             count = 0
 
             for step in cls.find(solution):
-- 
2.43.0


From 214695d703df203b5df8cea8de2104ab2c2ed474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 03/27] fix: compare items with the empty marker by value in
 decode()

Splitting gives new strings, so the identity test failed for markers of
more than one character.
---
 sudokutools/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 6539d81..0c93d22 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -394,7 +394,7 @@ class Sudoku(object):
             items = sudoku_str
 
         for item in items:
-            if item is empty:
+            if item == empty:
                 sudoku[row, col] = 0
             else:
                 sudoku[row, col] = int(item)
-- 
2.43.0


From c3cdc37221955cd9d68e6361fb2092107bb64a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 04/27] fix: keep leading and trailing empty fields in decode()

If blanks represent empty fields, those at either end were stripped and
the remaining string had the wrong length.
---
 sudokutools/sudoku.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 0c93d22..bc654ef 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -335,8 +335,8 @@ class Sudoku(object):
         This is the default format, which encode() uses and no other
         format is supported right now.
         """
-        # remove leading and trailing whitespace
-        s = s.strip()
+        # remove leading and trailing whitespace (except empty fields)
+        s = s.strip("".join([c for c in whitespace if c not in empty]))
 
         # remove all unused whitespace
         if number_sep is None:
-- 
2.43.0


From 79af70b6ab725219b537b4ec6a843d14d6c29a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 05/27] fix: separate candidates in encode() like numbers

Without separator candidates above 9 were ambiguous, and decode() expects
number_sep within the candidate lists. It failed for empty lists, too.
---
 sudokutools/sudoku.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index bc654ef..d5760c8 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -277,10 +277,12 @@ class Sudoku(object):
 
         if include_candidates:
             all_candidates = []
+            # "," already separates the candidate lists
+            candidate_sep = col_sep if col_sep != "," else ""
 
             for row, col in self:
                 clist = list(self.get_candidates(row, col))
-                cstr = "".join([str(i) for i in sorted(clist)])
+                cstr = candidate_sep.join([str(i) for i in sorted(clist)])
                 all_candidates.append(cstr)
 
             s += "|" + ",".join(all_candidates)
@@ -416,7 +418,8 @@ class Sudoku(object):
         for c in candidate_str.split(candidate_sep):
             c = c.strip()
             if number_sep:
-                candidates = [int(item) for item in c.split(number_sep)]
+                candidates = [
+                    int(item) for item in c.split(number_sep) if item]
             else:
                 candidates = [int(item) for item in c]
             sudoku.set_candidates(row, col, candidates)
-- 
2.43.0


From 0da7481e5e67c41a79c4500cf285175b11276db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 06/27] fix: sudokus of different size are never equal

A smaller sudoku equalled a larger one with the same numbers in the common
part, but not the other way round.
---
 sudokutools/sudoku.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index d5760c8..5e58023 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -153,6 +153,9 @@ class Sudoku(object):
             bool: True, if all fields are equal and false if not or other
                   is an incompatible type.
         """
+        if isinstance(other, Sudoku) and len(self) != len(other):
+            return False
+
         try:
             for row, col in self:
                 if self[row, col] != other[row, col]:
-- 
2.43.0


From 6aedf77660b33222073ffa75bbe0af3c5662f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 07/27] fix: use the number_sep argument of view()

It was overwritten by the default.
---
 sudokutools/sudoku.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 5e58023..c2de48c 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -595,10 +595,11 @@ def view(
     """
 
     max_length = max([len(str(n)) for n in sudoku.numbers])
-    if max_length > 1:
-        number_sep = ","
-    else:
-        number_sep = ""
+    if number_sep is None:
+        if max_length > 1:
+            number_sep = ","
+        else:
+            number_sep = ""
 
     # In case, candidates aren't calculated yet, this gives a
     # better representation.
-- 
2.43.0


From 98133af7c3f1820fc85abfe299d280bc36ca2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 08/27] fix: align the rules of view() for boxes of height one

With a single box per row the rule was drawn for two of them.
---
 sudokutools/sudoku.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index c2de48c..b540746 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -616,10 +616,9 @@ def view(
 
     dash_count = sudoku.box_width + sudoku.box_width * max_field_length
 
-    rule = "-" * dash_count + "+"
-    for i in range(sudoku.box_height - 2):
-        rule += "-" * (dash_count + 1) + "+"
-    rule += "-" * dash_count + "\n"
+    rule = "+".join(["-" * (dash_count + 1)] * sudoku.box_height)
+    # there is no blank before the first and after the last field
+    rule = rule[1:-1] + "\n"
 
     s = ""
 
-- 
2.43.0


From f7d85443320e1266222463c267831653fb224558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 09/27] fix: remove whitespace in notation.decode()

The string of all whitespace characters was replaced as a whole, so no
whitespace was ever removed.
---
 sudokutools/notation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index bece0f8..619c922 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -182,7 +182,8 @@ def decode(s, width=3, height=3, sep=",", nsep=""):
     # there is none present in the separators.
     if not any([c in sep for c in string.whitespace]) and \
        not any([c in nsep for c in string.whitespace]):
-        s = s.replace(string.whitespace, "")
+        for c in string.whitespace:
+            s = s.replace(c, "")
 
     # Split multiple groups.
     groups = [s]
-- 
2.43.0


From 50f4296e850554afd505af80779c1601d7bf2193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 10/27] fix: refuse repeated kinds and missing numbers in
 notation.decode()

'r1r2c1' silently dropped r1, 'r1c' was read as the whole row and 'r'
raised a TypeError.
---
 sudokutools/notation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 619c922..8e17313 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -228,7 +228,7 @@ def _decode_single(group, width=3, height=3, nsep=""):
     number_str = ""     # An accumulation of all numbers for the current item.
 
     for c in group:
-        if c in present:
+        if c in present or c == current:
             raise ValueError(
                 "Malformed group '%s'. '%s' has multiple occurrences." %
                 (group, c))
@@ -269,6 +269,11 @@ def _decode_single(group, width=3, height=3, nsep=""):
         else:
             numbers = [int(n) - 1 for n in number_str.split(nsep)]
 
+        if not numbers:
+            raise ValueError(
+                "Malformed group '%s'. No numbers given for '%s'" %
+                (group, current))
+
         all_numbers[current] = numbers
     elif not present:
         raise ValueError("Empty group '%s'" % group)
-- 
2.43.0


From e499c2a36d0efde2c8a471152d9bc994dc0ef9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 11/27] fix: make encode_action() work

Numbers were concatenated to strings and the string for removed candidates
was not returned.
---
 sudokutools/notation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 8e17313..1264b4a 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -292,11 +292,12 @@ def _decode_single(group, width=3, height=3, nsep=""):
 def encode_action(action, width=3, height=3):
     if isinstance(action, SetNumber):
         s = encode(action.coordinates, width=width, height=height)
-        s += "=" + action.number
+        s += "=%d" % action.number
         return s
     elif isinstance(action, RemoveCandidates):
         s = encode(action.coordinates, width=width, height=height)
-        s += "<>" + "".join(sorted(action.candidates))
+        s += "<>" + "".join([str(c) for c in sorted(action.candidates)])
+        return s
 
 
 def decode_action(s, width=3, height=3):
-- 
2.43.0


From 89b7fd1410f12ad8d6801ffcf2b0f232030e860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 12/27] fix: read candidates to remove after '-' in
 decode_action()

The '-' itself was read as a candidate, so this always failed.
---
 sudokutools/notation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 1264b4a..bacf293 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -303,7 +303,7 @@ def encode_action(action, width=3, height=3):
 def decode_action(s, width=3, height=3):
     s = s.strip()
     if s.startswith("-"):
-        left, sep, right = s.partition(" ")
+        left, sep, right = s[1:].partition(" ")
         coordinates = decode(right, width=width, height=height)
         candidates = [int(c) for c in left]
         return RemoveCandidates(coordinates, candidates)
-- 
2.43.0


From dd095faed6b2c3a5738ffa2ad49fad50b97ee16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 13/27] fix: support candidates above 9 in action notation

They were read digit by digit and written without a separator.
---
 sudokutools/notation.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index bacf293..9b48233 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -296,7 +296,8 @@ def encode_action(action, width=3, height=3):
         return s
     elif isinstance(action, RemoveCandidates):
         s = encode(action.coordinates, width=width, height=height)
-        s += "<>" + "".join([str(c) for c in sorted(action.candidates)])
+        nsep = "," if width * height > 9 else ""
+        s += "<>" + nsep.join([str(c) for c in sorted(action.candidates)])
         return s
 
 
@@ -305,11 +306,11 @@ def decode_action(s, width=3, height=3):
     if s.startswith("-"):
         left, sep, right = s[1:].partition(" ")
         coordinates = decode(right, width=width, height=height)
-        candidates = [int(c) for c in left]
+        candidates = _decode_candidates(left, width, height)
         return RemoveCandidates(coordinates, candidates)
     elif "<>" in s:
         left, sep, right = s.partition("<>")
-        candidates = [int(c) for c in right]
+        candidates = _decode_candidates(right, width, height)
         coordinates = decode(left, width=width, height=height)
         return RemoveCandidates(coordinates, candidates)
     elif "=" in s:
@@ -321,6 +322,14 @@ def decode_action(s, width=3, height=3):
         raise ValueError("Cannot decode action '%s'" % s)
 
 
+def _decode_candidates(s, width, height):
+    # As in coordinates numbers > 9 must be separated.
+    if width * height > 9 and s:
+        return [int(c) for c in s.split(",")]
+    else:
+        return [int(c) for c in s]
+
+
 def _join_keys(a_dict):
     new_dict = {}
     for key, value in a_dict.items():
-- 
2.43.0


From bd53ed55e2c86584e072137ef14749dfc7567e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 14/27] fix: report every malformed shell argument

literal_eval() also raises TypeError (e.g. for '{[]}'), MemoryError and
RecursionError (deeply nested input), which ended the shell.
---
 sudokutools/shell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 92ba16e..7262863 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -248,7 +248,8 @@ def parse(s):
                     else:
                         args.append(literal_eval(value))
 
-            except (SyntaxError, ValueError):
+            except (SyntaxError, ValueError, TypeError, MemoryError,
+                    RecursionError):
                 raise ValueError("Invalid argument: %s " % value +
                                  "(Did you forget quotation marks?)")
 
-- 
2.43.0


From 1538559313cbd9527f70148a2050745874665e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 15/27] fix: forget an interrupted command line in the shell

After a keyboard interrupt the next line was appended to the interrupted
one.
---
 sudokutools/shell.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 7262863..64a12f4 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -414,10 +414,11 @@ class Shell(object):
                 else:
                     lines += line
 
+                    command_line, lines = lines, ""
+
                     # ignore empty lines
-                    if lines:
-                        self.execute_line(lines)
-                    lines = ""
+                    if command_line:
+                        self.execute_line(command_line)
             except KeyboardInterrupt:
                 self._print("")
 
-- 
2.43.0


From 8973ba699f5f249c6a367755cf1fb58c54e58d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 16/27] fix: close a loop also if running it is interrupted

After a keyboard interrupt all further commands were added to the loop
instead of being executed.
---
 sudokutools/shell.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 64a12f4..3e224e6 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -472,13 +472,14 @@ class Shell(object):
 
             self.prompt = self.command_prompt
 
+            # close the loop, before it can be interrupted
+            loop_n, self.__loop_n = self.__loop_n, None
+            commands, self.__loop_command_list = self.__loop_command_list, []
+
             # run commands
-            for _ in range(self.__loop_n):
-                for command in self.__loop_command_list:
+            for _ in range(loop_n):
+                for command in commands:
                     self.execute(*command)
-
-            self.__loop_n = None
-            self.__loop_command_list = []
         else:
             try:
                 n = int(n)
-- 
2.43.0


From 031ea217b09b69d60c32870702d7183c7dbc5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 17/27] fix: don't crash on empty lines and 'settings' in the
 game shell

The settings hold just the values, their descriptions are kept apart.
---
 sudokutools/shell.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 3e224e6..0396a23 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -71,7 +71,7 @@ class GameShell(object):
             init_candidates(self.sudokus[0], filled_only=True)
 
     def get_setting(self, key):
-        return self.settings[key][0]
+        return self.settings[key]
 
     def run(self):
         print("sudokutools game shell %s" % __version__)
@@ -84,6 +84,9 @@ class GameShell(object):
             print("> ", end="")
             line = input()
             splitted = line.split()
+            # ignore empty lines
+            if not splitted:
+                continue
             command = splitted[0]
 
             if command == "hint":
@@ -114,7 +117,7 @@ class GameShell(object):
                     print(s)
             elif command == "settings":
                 for key in sorted(self.settings):
-                    value, desc = self.settings[key]
+                    value, desc = self.settings[key], self.settings_desc[key]
                     s = "%s = %s" % (key, value)
                     s = s.ljust(20, " ")
                     s += " # %s" % desc
-- 
2.43.0


From 6410ecca0dbe85cfa0550f27de9e1b5a83053a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 18/27] fix: report each hidden tuple once

The same step was yielded for each of its fields.
---
 sudokutools/solvers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index 5033def..21a0ebe 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -361,12 +361,11 @@ class HiddenTuple(SolveStep):
 
             if len(max_set) <= cls.n:
                 # hidden tuple found - only yield, if there are actions to apply
-                for (row, col) in max_set:
-                    affected = [(r, c) for r, c in max_set
-                                if sudoku.get_candidates(r, c) - set(numbers)]
+                affected = [(r, c) for r, c in max_set
+                            if sudoku.get_candidates(r, c) - set(numbers)]
 
-                    if affected:
-                        yield cls(clues=coords, affected=affected, values=numbers)
+                if affected:
+                    yield cls(clues=coords, affected=affected, values=numbers)
 
 HiddenPair = type("HiddenPair", (HiddenTuple,), dict(n=2))
 HiddenTriple = type("HiddenTriple", (HiddenTuple,), dict(n=3))
-- 
2.43.0


From 4349b9a1a919ed64c23ece9e698e9cfe0076760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 19/27] fix: print numbers and candidates in the shell

get and get_candidates don't return strings, so writing their results
failed with a TypeError.
---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 0396a23..e3dd603 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -331,7 +331,7 @@ class Shell(object):
         self.stack = []
 
     def _print(self, s, end='\n'):
-        self.outfile.write(s + end)
+        self.outfile.write(str(s) + end)
         self.outfile.flush()
 
     def error(self, s):
-- 
2.43.0


From 26e2e320fc3624d68e92973354e8942dc74a9586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 20/27] fix: don't execute a continued line, which was
 interrupted

An interrupt at the prompt executed the part of the command typed on the
lines before.
---
 sudokutools/shell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index e3dd603..5dc2d89 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -390,7 +390,8 @@ class Shell(object):
             except KeyboardInterrupt:
                 if self.interactive:
                     self._print("\nUse 'exit' to leave the shell.")
-                    line = "\n"
+                    # forget the beginning of a continued line
+                    line, lines = "\n", ""
                 else:
                     sys.exit(2)
 
-- 
2.43.0


From 709e18353773679e2d420aa334d659cc766bb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:33 +0000
Subject: [PATCH 21/27] fix: emptying a field by an action leaves no candidate
 0

---
 sudokutools/actions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudokutools/actions.py b/sudokutools/actions.py
index 385d243..64de529 100644
--- a/sudokutools/actions.py
+++ b/sudokutools/actions.py
@@ -20,7 +20,9 @@ class SetNumber(object):
     def __call__(self, sudoku):
         for row, col in self.coordinates:
             sudoku.set_number(row, col, self.number)
-            sudoku.set_candidates(row, col, {self.number})
+            # 0 is no number, but empties the field
+            sudoku.set_candidates(
+                row, col, {self.number} if self.number else set())
 
     def __str__(self):
         return "SetNumber(%s, %s)" % (
-- 
2.43.0


From 34332045a1979f9bc2b7eaf25ad767c176dbed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:27 +0000
Subject: [PATCH 22/27] fix: a hidden single is a candidate of its field

HiddenSingle.find() reported every number which is no candidate of the other
fields of a row, column or box, whether or not it is a candidate of the field
itself.
---
 sudokutools/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index 21a0ebe..abe4f16 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -207,7 +207,7 @@ class HiddenSingle(_SingleFieldStep):
         for row, col in sudoku.empty():
             for f in sudoku.column_of, sudoku.row_of, sudoku.box_of:
                 found_hidden_single = False
-                candidates = set(sudoku.numbers)
+                candidates = set(sudoku.get_candidates(row, col))
                 for i, j in f(row, col, include=False):
                     candidates -= sudoku.get_candidates(i, j)
 
-- 
2.43.0


From 51dfd2331db3e6e56166c50b3ca101d02a0e7b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 23/27] fix: hints follow changed candidates in the play mode

---
 sudokutools/shell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 5dc2d89..b527252 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -90,7 +90,8 @@ class GameShell(object):
             command = splitted[0]
 
             if command == "hint":
-                if self.hints is None or self.hinted_sudoku != sudoku:
+                if self.hints is None or not self.hinted_sudoku.equals(
+                        sudoku, candidates=True):
                     self.hinted_sudoku = sudoku.copy(include_candidates=True)
                     self.hints = hints(sudoku)
                 try:
-- 
2.43.0


From 4e4c5f529eb7ab8ded5ec242a03abf3d5195491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 24/27] fix: dlx() doesn't exceed the recursion limit for large
 sudokus

---
 sudokutools/dlx.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/sudokutools/dlx.py b/sudokutools/dlx.py
index 8cafcff..722ec65 100644
--- a/sudokutools/dlx.py
+++ b/sudokutools/dlx.py
@@ -63,17 +63,30 @@ def exact_cover(X, Y):
 
 
 def solve(X, Y, solution):
-    if not X:
-        yield list(solution)
-    else:
-        c = min(X, key=lambda c: len(X[c]))
-        for r in list(X[c]):
-            solution.append(r)
-            cols = select(X, Y, r)
-            for s in solve(X, Y, solution):
-                yield s
-            deselect(X, Y, r, cols)
-            solution.pop()
+    # No recursion here: its depth is the number of empty fields,
+    # which exceeds the recursion limit for large sudokus.
+    choices = []
+    removed = []
+
+    while True:
+        if X:
+            c = min(X, key=lambda c: len(X[c]))
+            choices.append(iter(list(X[c])))
+        else:
+            yield list(solution)
+
+        # go on with the next choice and take back exhausted ones
+        while choices:
+            if len(removed) == len(choices):
+                deselect(X, Y, solution.pop(), removed.pop())
+            r = next(choices[-1], None)
+            if r is not None:
+                solution.append(r)
+                removed.append(select(X, Y, r))
+                break
+            choices.pop()
+        else:
+            return
 
 
 def select(X, Y, r):
-- 
2.43.0


From 7b08a1379b5d2a4f1e4149196626c83db9414f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 25/27] fix: bruteforce() doesn't exceed the recursion limit
 for large sudokus

---
 sudokutools/solve.py | 64 +++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/sudokutools/solve.py b/sudokutools/solve.py
index 112574a..c029d53 100644
--- a/sudokutools/solve.py
+++ b/sudokutools/solve.py
@@ -107,28 +107,42 @@ def _do_bruteforce(sudoku):
     outside of the solve module.
     """
 
-    sorted_empty = sorted(
-        list(sudoku.empty()), key=lambda c: len(sudoku.get_candidates(*c)))
-
-    try:
-        row, col = sorted_empty[0]
-    except IndexError:
-        yield sudoku
-        return
-
-    for candidate in list(sudoku.get_candidates(row, col)):
-        sudoku[row, col] = candidate
-
-        # save a copy of the candidates in fields, which will be changed
-        saved_candidates = {(row, col): set(sudoku.get_candidates(row, col))}
-        for (i, j) in sudoku.surrounding_of(row, col, include=False):
-            saved_candidates[(i, j)] = set(sudoku.get_candidates(i, j))
-            sudoku.remove_candidates(i, j, {candidate})
-
-        for solution in _do_bruteforce(sudoku):
-            yield solution
-
-        # revert candidate changes and continue with next candidate
-        for (i, j), value in saved_candidates.items():
-            sudoku.set_candidates(i, j, value)
-        sudoku[row, col] = 0
+    # No recursion here: its depth is the number of empty fields,
+    # which exceeds the recursion limit for large sudokus.
+    choices = []
+
+    while True:
+        sorted_empty = sorted(
+            list(sudoku.empty()), key=lambda c: len(sudoku.get_candidates(*c)))
+
+        if sorted_empty:
+            row, col = sorted_empty[0]
+            candidates = list(sudoku.get_candidates(row, col))
+            choices.append((row, col, iter(candidates), {}))
+        else:
+            yield sudoku
+
+        while choices:
+            row, col, candidates, saved_candidates = choices[-1]
+
+            # revert candidate changes and continue with next candidate
+            for (i, j), value in saved_candidates.items():
+                sudoku.set_candidates(i, j, value)
+            saved_candidates.clear()
+            sudoku[row, col] = 0
+
+            candidate = next(candidates, None)
+            if candidate is None:
+                choices.pop()
+                continue
+
+            sudoku[row, col] = candidate
+
+            # save a copy of the candidates in fields, which will be changed
+            saved_candidates[(row, col)] = set(sudoku.get_candidates(row, col))
+            for (i, j) in sudoku.surrounding_of(row, col, include=False):
+                saved_candidates[(i, j)] = set(sudoku.get_candidates(i, j))
+                sudoku.remove_candidates(i, j, {candidate})
+            break
+        else:
+            return
-- 
2.43.0


From 3acb99ae9ffd588ea2ac37b8d950b55c1ad823ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 26/27] fix: equals() is false for sudokus of different size

---
 sudokutools/sudoku.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index b540746..0953c09 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -534,6 +534,9 @@ class Sudoku(object):
                 if grid_y + i != row and grid_x + j != col]
 
     def equals(self, other, candidates=False):
+        if isinstance(other, Sudoku) and len(self) != len(other):
+            return False
+
         for row, col in self:
             if self[(row, col)] != other[(row, col)]:
                 return False
-- 
2.43.0


From d897b2f938c674b07460dd6e9319f3a5c5b783ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 27/27] fix: an interrupted pop doesn't lose the sudoku

---
 sudokutools/shell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index b527252..7d8b629 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -527,7 +527,10 @@ class Shell(object):
                 return self.error(
                     "0 <= position < %d" % len(self.stack))
 
-        self.sudoku = self.stack.pop(position)
+        # both at once, because an interrupt in between loses the sudoku
+        self.sudoku, self.stack = (
+            self.stack[position],
+            self.stack[:position] + self.stack[position + 1:])
 
     def solve_command(self, sudoku):
         """Solve the current sudoku."""
-- 
2.43.0

