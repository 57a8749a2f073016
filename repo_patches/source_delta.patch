From d69613d840e9e18b3092e2a278e3b47092befcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 01/58] fix: restore sys.stderr after a test case

TestCaseRun replaced sys.stderr with None before open() saved it, so
after any run the process was left with a closed stderr.
---
 booktest/testcaserun.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 944969e..2fb4242 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -76,10 +76,6 @@ class TestCaseRun:
         self.log = None
         self.orig_handlers = None
 
-        # swap error
-        self.orig_err = sys.stderr
-        sys.stderr = self.err
-
         # error management
         #
         # let's separate diff from proper failure
-- 
2.43.0


From 2b860d5ec51983b1df85249b61ed4bf0c4382bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 02/58] fix: tokenizer did not advance over NUL characters

Writing text containing a NUL character never returned.
---
 booktest/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/tokenizer.py b/booktest/tokenizer.py
index 8e7fa25..b399d19 100644
--- a/booktest/tokenizer.py
+++ b/booktest/tokenizer.py
@@ -52,7 +52,7 @@ class TestTokenizer:
         if c.isalnum():
             while self.peek().isalnum():
                 self.at = self.at + 1
-        elif c != '\0':
+        else:
             self.at = self.at + 1
         return self.buf[begin:self.at]
 
-- 
2.43.0


From 256649d548245c8d2e24d878149a14911f53450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 03/58] fix: text with carriage returns never matched its own
 snapshot

The snapshot is read with universal newlines, so '\r' and '\r\n' written
by a test came back as line breaks and differed on every run. Line
breaks are now normalized when they are written.
---
 booktest/testcaserun.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 2fb4242..1666fdd 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -524,7 +524,7 @@ s
         NOTE: The token content IS COMPARED to snapshot content for differences
         that are reported.
         """
-        tokens = TestTokenizer(str(text))
+        tokens = TestTokenizer(normalize_line_breaks(str(text)))
         for t in tokens:
             self.test_feed_token(t)
         return self
@@ -537,7 +537,7 @@ s
         NOTE: The token content IS NOT COMPARED to snapshot content, and differences
         are ignored
         """
-        tokens = TestTokenizer(text)
+        tokens = TestTokenizer(normalize_line_breaks(str(text)))
         for t in tokens:
             self.feed_token(t)
         return self
@@ -928,6 +928,11 @@ s
         return self
 
 
+def normalize_line_breaks(text):
+    # the snapshot is read back with universal newlines
+    return text.replace("\r\n", "\n").replace("\r", "\n")
+
+
 def value_format(value):
     value_type = type(value)
     if value_type is list:
-- 
2.43.0


From 30cf87afa087c59f25a5720f5279b25f68d02645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 04/58] fix: last snapshot line without a line break lost its
 last character

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 1666fdd..e39daea 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -325,7 +325,7 @@ s
                     self.exp_line_number += 1
                 else:
                     self.exp_line_number += 1
-                    self.exp_line = line[0:len(line)-1]
+                    self.exp_line = line[:-1] if line.endswith("\n") else line
                     self.exp_tokens =\
                         BufferIterator(TestTokenizer(self.exp_line))
             elif self.last_checked:
-- 
2.43.0


From 7db27808a44b6e2452a296933fd103386993cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 05/58] fix: header did not end an unfinished first line

The header was glued to the text before it, so it was never found in
the snapshot and the test differed on every run.
---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index e39daea..75b4529 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -585,7 +585,7 @@ s
         the only difference between this method and anchorln() method is that the
         header is preceded and followed by an empty line.
         """
-        if self.line_number > 0:
+        if self.line_number > 0 or len(self.out_line) > 0:
             check = self.last_checked and self.exp_line is not None
             self.feed_token("\n", check=check)
         self.anchorln(header)
-- 
2.43.0


From 55a289d2bae0fbe57667cac9c5bd9dde9820503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 06/58] fix: set written past the end of the snapshot was not
 compared

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 75b4529..9ee5172 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -768,7 +768,7 @@ s
         """
         compare = None
 
-        if self.exp_line is not None:
+        if self.exp_file_exists:
             begin = self.exp_line_number
             compare = set()
             while (self.exp_line is not None
-- 
2.43.0


From f98d3c7ba40988065497e44e975ef7bbd50327b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 07/58] fix: text, differences and failures after the last line
 break were lost

If a test did not end its last line, the line was not written, and a
difference or a failure marked on it (or after it, like a missing item of
a set) was ignored and the test reported as ok.
---
 booktest/testcaserun.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 9ee5172..b6a0a7f 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -225,6 +225,13 @@ s
         self.ended = time.time()
         self.took_ms = 1000*(self.ended - self.started)
 
+        if len(self.out_line) > 0:
+            # the test didn't end its last line
+            self.feed_token("\n", check=self.last_checked)
+        elif self.line_error is not None or self.line_diff is not None:
+            # difference or failure was marked after the last line
+            self.report_line()
+
         self.close()
 
         if self.errors != 0:
@@ -433,6 +440,17 @@ s
         updated.
         """
 
+        self.report_line()
+        self.write_line()
+        self.line_error = None
+        self.line_diff = None
+
+    def report_line(self):
+        """
+        Internal method. Writes the prepared line into reporting and
+        updates the number of differing or erroneous lines.
+        """
+
         if self.line_error is not None or self.line_diff is not None:
             symbol = "?"
             pos = None
@@ -450,13 +468,8 @@ s
                 self.report(f"{symbol} {self.out_line:60s} | EOF")
             if self.point_error_pos:
                 self.report("  " + (" " * pos) + "^")
-
-            self.write_line()
-            self.line_error = None
-            self.line_diff = None
         else:
             self.report(f"  {self.out_line}")
-            self.write_line()
 
     def head_exp_token(self):
         """
-- 
2.43.0


From dcdfe3785a074bbdfcfe204d25aeac21fa36b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 08/58] fix: a word written in several pieces never matched its
 own snapshot

The text was tokenized per call, while the snapshot was tokenized per
line, so e.g. t.t('foo').t('bar') or keyvalueln('key: ', 1) differed
from the accepted snapshot on every run.
---
 booktest/testcaserun.py | 37 ++++++++++++++++++++++++++++++++++++-
 booktest/tokenizer.py   |  3 +++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index b6a0a7f..a04c730 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -53,6 +53,7 @@ class TestCaseRun:
         self.exp_line = None
         self.exp_line_number = None
         self.exp_tokens = None
+        self.exp_word_cut = False
 
         # prepare output
         self.out_base_dir = path.join(run.out_dir, relative_dir)
@@ -322,6 +323,7 @@ s
         """
         Moves snapshot reader cursor to the next snapshot file line
         """
+        self.exp_word_cut = False
         if self.exp_file_exists:
             if self.exp:
                 line = self.exp.readline()
@@ -496,6 +498,23 @@ s
         else:
             return None
 
+    def next_exp_piece(self, token):
+        """
+        Reads a tested token from the snapshot file. This is the next snapshot token,
+        except that when the snapshot continues with the tested text, exactly this text
+        is read. This way, a test may write a word in several pieces.
+        """
+        if token != '\n' and self.exp_tokens is not None and self.exp_tokens.has_next():
+            head = self.exp_tokens.head
+            rest = head + self.exp_tokens.iterator.rest()
+            if (self.exp_word_cut or token != head) and rest.startswith(token):
+                rest = rest[len(token):]
+                self.exp_tokens = BufferIterator(TestTokenizer(rest))
+                self.exp_word_cut = is_inside_token(self.exp_line, len(self.exp_line) - len(rest))
+                return token
+        self.exp_word_cut = False
+        return self.next_exp_token()
+
     def feed_token(self, token, check=False):
         """
         Feeds a token into test stream. If `check` is True, the token
@@ -509,7 +528,14 @@ s
         to the test stream.
         """
 
-        exp_token = self.next_exp_token()
+        if check:
+            exp_token = self.next_exp_piece(token)
+        else:
+            exp_token = self.next_exp_token()
+            if self.exp_word_cut:
+                # the tested text ended in the middle of a snapshot word
+                self.exp_word_cut = False
+                self.diff()
         self.last_checked = check
         if self.exp_file_exists \
            and token != exp_token \
@@ -941,6 +967,15 @@ s
         return self
 
 
+def is_inside_token(text, position):
+    at = 0
+    for token in TestTokenizer(text):
+        if at >= position:
+            break
+        at += len(token)
+    return at > position
+
+
 def normalize_line_breaks(text):
     # the snapshot is read back with universal newlines
     return text.replace("\r\n", "\n").replace("\r", "\n")
diff --git a/booktest/tokenizer.py b/booktest/tokenizer.py
index b399d19..785c8ab 100644
--- a/booktest/tokenizer.py
+++ b/booktest/tokenizer.py
@@ -22,6 +22,9 @@ class TestTokenizer:
     def has_next(self):
         return self.at < len(self.buf)
 
+    def rest(self):
+        return self.buf[self.at:]
+
     def __next__(self):
         if not self.has_next():
             raise StopIteration()
-- 
2.43.0


From 5684d0fac0e7b1c670ed600512113aa7717e0357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 09/58] fix: accepting an already accepted case destroyed its
 snapshot files

---
 booktest/review.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/review.py b/booktest/review.py
index 423afe7..645aeca 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -90,6 +90,10 @@ def freeze_case(exp_dir,
     out_dir_name = os.path.join(out_dir, case_name)
     out_file_name = os.path.join(out_dir, case_name + ".md")
 
+    if not path.exists(out_file_name) and path.exists(exp_file_name):
+        # this output has already been accepted
+        return
+
     # destroy old test related files
     if path.exists(exp_dir_name):
         shutil.rmtree(exp_dir_name)
-- 
2.43.0


From 1848e145099c63893556dca955dc1bfb16dbf508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 10/58] fix: a test asking to exit ended the whole run,
 interruption left stderr and logs redirected

---
 booktest/testrun.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 66c133d..7c7aedf 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -94,10 +94,14 @@ class TestRun:
                 rv = await case(t)
             else:
                 rv = case(t)
-        except Exception as e:
+        except (Exception, SystemExit) as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
+        except BaseException:
+            # e.g. keyboard interrupt
+            t.close()
+            raise
 
         result, interaction = t.end()
         if result is TestResult.OK or result is TestResult.DIFF:
-- 
2.43.0


From d7a85d77161f666f22bdf9412f7cdf2d003a4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 11/58] fix: result, that cannot be stored, ended the run and
 left a broken file

---
 booktest/testrun.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 7c7aedf..82d04de 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -75,15 +75,18 @@ class TestRun:
 
         return False, None
 
-    def save_test_result(self, case_path, result):
+    def save_test_result(self, case_path, result, stored_result):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
         self.cache[bin_path] = result
         if result is None:
             if path.exists(bin_path):
                 os.remove(bin_path)
         else:
-            with open(bin_path, 'wb') as file:
-                pickle.dump(result, file)
+            # never leave a partial file behind, not even when interrupted
+            tmp_path = bin_path + ".part"
+            with open(tmp_path, 'wb') as file:
+                file.write(stored_result)
+            os.replace(tmp_path, bin_path)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
@@ -94,6 +97,7 @@ class TestRun:
                 rv = await case(t)
             else:
                 rv = case(t)
+            stored_rv = pickle.dumps(rv)
         except (Exception, SystemExit) as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
@@ -106,7 +110,7 @@ class TestRun:
         result, interaction = t.end()
         if result is TestResult.OK or result is TestResult.DIFF:
             # if the test case return a value, store it in a cache
-            self.save_test_result(case_path, rv)
+            self.save_test_result(case_path, rv, stored_rv)
 
         return result, interaction, t.took_ms
 
-- 
2.43.0


From 6eef91180427b5884d71dcb476baa9f14a6c545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 12/58] fix: None results were not stored for dependents run
 later or in other processes

---
 booktest/testrun.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 82d04de..666c559 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -78,15 +78,11 @@ class TestRun:
     def save_test_result(self, case_path, result, stored_result):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
         self.cache[bin_path] = result
-        if result is None:
-            if path.exists(bin_path):
-                os.remove(bin_path)
-        else:
-            # never leave a partial file behind, not even when interrupted
-            tmp_path = bin_path + ".part"
-            with open(tmp_path, 'wb') as file:
-                file.write(stored_result)
-            os.replace(tmp_path, bin_path)
+        # never leave a partial file behind, not even when interrupted
+        tmp_path = bin_path + ".part"
+        with open(tmp_path, 'wb') as file:
+            file.write(stored_result)
+        os.replace(tmp_path, bin_path)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
-- 
2.43.0


From e882f7950554c519bc659e754efbb6068dde47ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 13/58] fix: dependencies did not work with caches that keep
 nothing

---
 booktest/cache.py   | 3 +++
 booktest/testrun.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/booktest/cache.py b/booktest/cache.py
index 886ff18..c66212a 100644
--- a/booktest/cache.py
+++ b/booktest/cache.py
@@ -42,6 +42,9 @@ class NoCache:
     def __len__(self):
         return 0
 
+    def __contains__(self, key):
+        return False
+
     def __getitem__(self, key):
         return None
 
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 666c559..18619e9 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -66,6 +66,7 @@ class TestRun:
                         with open(bin_path, 'rb') as file:
                             rv = pickle.load(file)
                             self.cache[bin_path] = rv
+                            return True, rv
                     else:
                         raise Exception(
                             f"case {case.name} dependency {t[0]}" +
-- 
2.43.0


From 6fee12a7af30b9d4ff6ae0ffdceda0727be756fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 14/58] fix: env snapshots failed on unset variables and left
 the environment changed

---
 booktest/env.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index f21b060..f6db0f1 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -6,6 +6,18 @@ import json
 from booktest.coroutines import maybe_async_call
 
 
+def set_env(name, value):
+    if value is None:
+        os.environ.pop(name, None)
+    else:
+        os.environ[name] = value
+
+
+def restore_env(old_env):
+    for name, value in old_env.items():
+        set_env(name, value)
+
+
 class SnapshotEnv:
 
     def __init__(self,
@@ -35,28 +47,24 @@ class SnapshotEnv:
 
         self._old_env = {}
         for name in self.names:
+            if name not in self.snaphots \
+               and not self.complete_snapshots and not self.refresh_snapshots:
+                restore_env(self._old_env)
+                raise Exception(
+                    f"missing env snapshot '{name}'. "
+                    "try running booktest with '-s' flag to capture the missing snapshot")
+
             old_value = os.environ.get(name)
             self._old_env[name] = old_value
             if name in self.snaphots:
                 value = self.snaphots[name]
-                if value is None:
-                    del os.environ[name]
-                else:
-                    os.environ[name] = self.snaphots[name]
+                set_env(name, value)
                 self.capture[name] = value
-            elif self.complete_snapshots or self.refresh_snapshots:
-                self.capture[name] = old_value
             else:
-                raise Exception(
-                    f"missing env snapshot '{name}'. "
-                    "try running booktest with '-s' flag to capture the missing snapshot")
+                self.capture[name] = old_value
 
     def stop(self):
-        for name, value in self._old_env.items():
-            if value is None:
-                del os.environ[name]
-            else:
-                os.environ[name] = self._old_env[name]
+        restore_env(self._old_env)
 
         with open(self.snapshot_out_path, "w") as f:
             json.dump(self.capture, f, indent=4)
-- 
2.43.0


From faac1f8bca2933846652298794cb392af6a18289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 15/58] fix: missing variables were mocked also when capturing
 snapshots

---
 booktest/env.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index f6db0f1..e1d41ff 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -118,22 +118,20 @@ class MockMissingEnv:
             raise ValueError("already started")
 
         self._old_env = {}
-        for name, value in self.env.items():
-            old_value = os.environ.get(name)
-            self._old_env[name] = old_value
-
-            if old_value is None:
-                if value is None:
-                    del os.environ[name]
-                else:
-                    os.environ[name] = value
+        if self._do_mock:
+            try:
+                for name, value in self.env.items():
+                    old_value = os.environ.get(name)
+                    self._old_env[name] = old_value
+
+                    if old_value is None:
+                        set_env(name, value)
+            except Exception:
+                restore_env(self._old_env)
+                raise
 
     def stop(self):
-        for name, value in self._old_env.items():
-            if value is None:
-                del os.environ[name]
-            else:
-                os.environ[name] = self._old_env[name]
+        restore_env(self._old_env)
 
     def __enter__(self):
         self.start()
-- 
2.43.0


From c7038d73f82ed71deff597da5c04ba9cca5125a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 16/58] fix: failing to mock a variable left earlier variables
 mocked

---
 booktest/env.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index e1d41ff..edf2ad8 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -168,15 +168,19 @@ class MockEnv:
             raise ValueError("already started")
 
         self._old_env = {}
-        for name, value in self.env.items():
-            old_value = os.environ.get(name)
-            self._old_env[name] = old_value
-
-            if value is None:
-                if name in os.environ:
-                    del os.environ[name]
-            else:
-                os.environ[name] = value
+        try:
+            for name, value in self.env.items():
+                old_value = os.environ.get(name)
+                self._old_env[name] = old_value
+
+                if value is None:
+                    if name in os.environ:
+                        del os.environ[name]
+                else:
+                    os.environ[name] = value
+        except Exception:
+            self.stop()
+            raise
 
     def stop(self):
         for name, value in self._old_env.items():
-- 
2.43.0


From c5e6ed085c5b16de71474958d92cbd9a906dff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 17/58] fix: flags of a run leaked in later runs of the process

---
 booktest/tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/tests.py b/booktest/tests.py
index b6cb00e..86600ec 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -366,7 +366,7 @@ class Tests:
         if setup is None:
             setup = BookTestSetup()
 
-        config = get_default_config()
+        config = dict(get_default_config())
         # extra default configuration parameters get layered
         # on top of normal default configuration
         for key, value in extra_default_config.items():
-- 
2.43.0


From 9a465fa377a889c9953a033dab44f2da728973dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 18/58] fix: .booktest file in home directory was never read

---
 booktest/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/config.py b/booktest/config.py
index e4edc5b..0825bec 100644
--- a/booktest/config.py
+++ b/booktest/config.py
@@ -30,7 +30,7 @@ def parse_config_file(config_file, config):
 def resolve_default_config(config_file):
     rv = {}
     # let home directory .booktest file has lowest priority
-    parse_config_file("~/.booktest", rv)
+    parse_config_file(path.expanduser("~/.booktest"), rv)
     # let config_file defaults have lower priority
     parse_config_file(config_file, rv)
 
-- 
2.43.0


From e6daf5fec97d715cbf2d0da97496317b89b5b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 19/58] fix: names with special characters were interpreted by
 the shell

---
 booktest/review.py      | 11 ++++++-----
 booktest/runs.py        |  5 +++--
 booktest/testcaserun.py |  4 ++--
 booktest/testrun.py     |  2 +-
 booktest/tests.py       |  6 ++++--
 5 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/booktest/review.py b/booktest/review.py
index 645aeca..92d6fbe 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -1,5 +1,6 @@
 import os.path as path
 import os
+import shlex
 import shutil
 
 from booktest.reports import TestResult, CaseReports, UserRequest, read_lines, Metrics
@@ -65,20 +66,20 @@ def interact(exp_dir, out_dir, case_name, test_result, config):
             done = True
         elif answer == "v":
             if os.path.exists(exp_file_name):
-                arg = f"{exp_file_name} {out_file_name}"
+                arg = f"{shlex.quote(exp_file_name)} {shlex.quote(out_file_name)}"
             else:
-                arg = out_file_name
+                arg = shlex.quote(out_file_name)
             run_tool(config, "md_viewer", arg)
         elif answer == "l":
-            run_tool(config, "log_viewer", log_file_name)
+            run_tool(config, "log_viewer", shlex.quote(log_file_name))
         elif answer == "d":
             run_tool(config,
                      "diff_tool",
-                     f"{exp_file_name} {out_file_name}")
+                     f"{shlex.quote(exp_file_name)} {shlex.quote(out_file_name)}")
         elif answer == "D":
             run_tool(config,
                      "fast_diff_tool",
-                     f"{exp_file_name} {out_file_name}")
+                     f"{shlex.quote(exp_file_name)} {shlex.quote(out_file_name)}")
     return rv, user_request
 
 
diff --git a/booktest/runs.py b/booktest/runs.py
index c725ce7..22c0f45 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -1,6 +1,7 @@
 import traceback
 import multiprocessing
 import os
+import shutil
 import threading
 import time
 from collections import defaultdict
@@ -36,7 +37,7 @@ def prepare_batch_dir(out_dir: str):
     _batch_dir = batch_dir(out_dir)
 
     if os.path.exists(_batch_dir):
-        os.system(f"rm -rf {_batch_dir}")
+        shutil.rmtree(_batch_dir)
         os.makedirs(_batch_dir, exist_ok=True)
 
 
@@ -310,7 +311,7 @@ def parallel_run_tests(exp_dir,
 
     exit_code = 0
 
-    os.system(f"mkdir -p {out_dir}")
+    os.makedirs(out_dir, exist_ok=True)
     report_file = os.path.join(out_dir, "cases.txt")
 
     with open(report_file, "w") as report_f:
diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index a04c730..198c958 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -45,7 +45,7 @@ class TestCaseRun:
 
         # expectation file
         self.exp_base_dir = path.join(run.exp_dir, relative_dir)
-        os.system(f"mkdir -p {self.exp_base_dir}")
+        os.makedirs(self.exp_base_dir, exist_ok=True)
         self.exp_file_name = path.join(self.exp_base_dir, name + ".md")
         self.exp_dir_name = path.join(self.exp_base_dir, name)
         self.exp_file_exists = path.exists(self.exp_file_name)
@@ -57,7 +57,7 @@ class TestCaseRun:
 
         # prepare output
         self.out_base_dir = path.join(run.out_dir, relative_dir)
-        os.system(f"mkdir -p {self.out_base_dir}")
+        os.makedirs(self.out_base_dir, exist_ok=True)
         self.out_file_name = path.join(self.out_base_dir, name + ".md")
         self.out_dir_name = path.join(self.out_base_dir, name)
         self.out_tmp_dir_name = path.join(self.out_base_dir, name + ".tmp")
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 18619e9..dde7fcd 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -127,7 +127,7 @@ class TestRun:
         oks = 0
         fails = 0
         tests = 0
-        os.system(f"mkdir -p {self.report_dir}")
+        os.makedirs(self.report_dir, exist_ok=True)
         report_file = path.join(self.report_dir, "cases.txt")
 
         # 1.2. To continue testing, we need to read
diff --git a/booktest/tests.py b/booktest/tests.py
index 86600ec..a22d225 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -1,6 +1,7 @@
 import os.path as path
 import os
 import argparse
+import shlex
 
 from coverage import Coverage
 
@@ -456,7 +457,8 @@ class Tests:
             for name in todo:
                 file = path.join(exp_dir, f"{name}.md")
                 if path.exists(file):
-                    os.system(f"cat {file}")
+                    with open(file, "r") as f:
+                        print(f.read(), end="")
             return 0
         elif cmd == '--path':
             for name in todo:
@@ -470,7 +472,7 @@ class Tests:
                 if path.exists(file):
                     files.append(file)
             if len(files) > 0:
-                return run_tool(config, "md_viewer", " ".join(files))
+                return run_tool(config, "md_viewer", " ".join(map(shlex.quote, files)))
             else:
                 return 0
         elif cmd == '--clean':
-- 
2.43.0


From 8d5a8f89bf0034184c818cfa3691e57344ee8473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 20/58] fix: parallel run got stuck when a case left no report

---
 booktest/reports.py | 2 +-
 booktest/runs.py    | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index a764841..f4d97bb 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -167,7 +167,7 @@ class CaseReports:
     def make_case(case_name,
                   res: TestResult,
                   duration):
-        return (case_name, res.name, duration)
+        return (case_name, res, duration)
 
     def to_dir(self, out_dir):
         report_file = os.path.join(out_dir, "cases.txt")
diff --git a/booktest/runs.py b/booktest/runs.py
index 22c0f45..7f7e55f 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -77,6 +77,8 @@ class RunBatch:
 
         output = open(output_file, "w")
 
+        rv = test_result_to_exit_code(TestResult.FAIL)
+
         try:
             run = TestRun(
                 self.exp_dir,
@@ -229,9 +231,11 @@ class ParallelRunner:
                 del scheduled[i]
                 self.reserved_resources -= self.resources[i]
                 report_file = case_batch_dir_and_report_file(self.batches_dir, i)[1]
-                if os.path.exists(report_file):
-                    reports.append(CaseReports.of_file(report_file).cases[0])
+                cases = CaseReports.of_file(report_file).cases
+                if len(cases) > 0:
+                    reports.append(cases[0])
                 else:
+                    # the case did not get to the end
                     reports.append(CaseReports.make_case(i, TestResult.FAIL, 0))
 
             with self.lock:
-- 
2.43.0


From 05c8dfacfcad7816972d53ef30a1ef879e9e5817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 21/58] fix: run_tests_async never worked

---
 booktest/runs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 7f7e55f..6fbacb4 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -462,7 +462,7 @@ async def run_tests_async(exp_dir,
         cache)
 
     with setup.setup_teardown():
-        rv = await test_result_to_exit_code(run.run())
+        rv = test_result_to_exit_code(await run.run_async())
 
     return rv
 
-- 
2.43.0


From 76c131c157c188ce135752631f42f916c219792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 22/58] fix: relative path of a file in a sibling directory
 sharing the prefix

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 198c958..ade188e 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -178,7 +178,7 @@ class TestCaseRun:
         """
         abs_file = os.path.abspath(file)
         abs_out_base_dir = os.path.abspath(self.out_base_dir)
-        if abs_file[:len(abs_out_base_dir)] == abs_out_base_dir:
+        if abs_file.startswith(os.path.join(abs_out_base_dir, "")):
             return abs_file[len(abs_out_base_dir)+1:]
         else:
             return None
-- 
2.43.0


From ee58cd05c5ea17ee56d82207b67266237930f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 23/58] fix: report cut in the middle of a character stopped
 the next run

---
 booktest/reports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index f4d97bb..85b6920 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -47,7 +47,8 @@ def read_lines(path, filename=None):
     else:
         file = os.path.join(path, filename)
     if os.path.exists(file):
-        with open(file, "r") as f:
+        # the end of the file may be damaged
+        with open(file, "r", errors="replace") as f:
             rv = f.read().split("\n")
             if len(rv) > 0 and len(rv[len(rv)-1]) == 0:
                 # remove empty trailing line
-- 
2.43.0


From b757296904f1f4302ded08d7034fdfc8f1285fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 24/58] fix: binary responses, headers, redirects and reasons
 of requests snapshots

---
 booktest/requests.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 1814743..34f3fad 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -142,26 +142,35 @@ class RequestSnapshot:
         response_json = json_object["response"]
 
         response = requests.Response()
-        response.headers = response_json["headers"]
+        response.headers = requests.structures.CaseInsensitiveDict(response_json["headers"])
         response.status_code = response_json["statusCode"]
+        response.reason = response_json.get("reason")
         response.encoding = response_json["encoding"]
-        response._content = response_json["content"].encode()
+        if "base64" in response_json:
+            response._content = base64.b64decode(response_json["base64"])
+        else:
+            response._content = response_json["content"].encode()
+        response._content_consumed = True
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
 
     def json_object(self, hide_details):
-        rv = {
-            "request": self.request.to_json_object(hide_details),
-            "response": {
-                "headers": dict(self.response.headers),
-                "statusCode": self.response.status_code,
-                "encoding": self.response.encoding,
-                "content": self.response.content.decode()
-            }
+        response = {
+            "headers": dict(self.response.headers),
+            "statusCode": self.response.status_code,
+            "reason": self.response.reason,
+            "encoding": self.response.encoding
         }
+        try:
+            response["content"] = self.response.content.decode()
+        except UnicodeDecodeError:
+            response["base64"] = base64.b64encode(self.response.content).decode("ascii")
 
-        return rv
+        return {
+            "request": self.request.to_json_object(hide_details),
+            "response": response
+        }
 
     def hash(self):
         return self.request.hash
@@ -205,6 +214,8 @@ class SnapshotAdapter(adapters.BaseAdapter):
             if snapshot.match(key):
                 if snapshot not in self.requests:
                     self.requests.append(snapshot)
+                snapshot.response.url = request.url
+                snapshot.response.request = request
                 return key, snapshot.response
 
         if not self.capture_snapshots:
-- 
2.43.0


From f2308566e833714757547329022797a4b11e3518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 25/58] fix: binary responses of httpx snapshots could not be
 replayed

---
 booktest/httpx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index c59a675..2a5561c 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -137,7 +137,7 @@ class RequestSnapshot:
                          json_to_hash=None):
         response_json = json_object["response"]
 
-        content = base64.b64decode(response_json["content"].encode("ascii")).decode("utf-8")
+        content = base64.b64decode(response_json["content"].encode("ascii"))
 
         response = httpx.Response(response_json["statusCode"],
                                   headers=response_json["headers"],
-- 
2.43.0


From 8dd1e3cde55a567264ccef427e85ebe0f97c757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 26/58] fix: repeated requests ignored the custom request hash

---
 booktest/httpx.py    | 12 ++++++++++--
 booktest/requests.py | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 2a5561c..270601b 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -31,6 +31,7 @@ class RequestKey:
                  json_to_hash=None):
         if json_to_hash is None:
             json_to_hash = json_to_sha1
+        self.json_to_hash = json_to_hash
 
         json_object = copy.deepcopy(json_object)
 
@@ -62,8 +63,15 @@ class RequestKey:
         prev_order = self.json_object.get("order", 0)
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
-        del json_object["hash"]
-        return RequestKey(json_object, False)
+        if self.json_to_hash is json_to_sha1:
+            del json_object["hash"]
+        else:
+            # let the custom hash decide also, what requests are repeated
+            json_object["hash"] = json_to_sha1({
+                "hash": self.hash,
+                "order": json_object["order"]
+            })
+        return RequestKey(json_object, False, self.json_to_hash)
 
     def url(self):
         return self.json_object.get("url")
diff --git a/booktest/requests.py b/booktest/requests.py
index 34f3fad..04401bf 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -41,6 +41,7 @@ class RequestKey:
                  json_to_hash=None):
         if json_to_hash is None:
             json_to_hash = json_to_sha1
+        self.json_to_hash = json_to_hash
 
         json_object = copy.deepcopy(json_object)
 
@@ -72,8 +73,15 @@ class RequestKey:
         prev_order = self.json_object.get("order", 0)
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
-        del json_object["hash"]
-        return RequestKey(json_object, False)
+        if self.json_to_hash is json_to_sha1:
+            del json_object["hash"]
+        else:
+            # let the custom hash decide also, what requests are repeated
+            json_object["hash"] = json_to_sha1({
+                "hash": self.hash,
+                "order": json_object["order"]
+            })
+        return RequestKey(json_object, False, self.json_to_hash)
 
     def url(self):
         return self.json_object.get("url")
-- 
2.43.0


From 629ee10caa60c2a39cb93d36c53948a5404f894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 27/58] fix: concurrent identical httpx requests overwrote each
 other's snapshot

---
 booktest/httpx.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 270601b..e5fb06b 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -227,9 +227,8 @@ class SnapshotHttpx:
         self._real_handle_async_request = None
 
     def mark_order(self, key: RequestKey):
-        for i in self.requests:
-            if key == i.request:
-                key = key.increase_order()
+        while any(key == i.request for i in self.requests):
+            key = key.increase_order()
 
         return key
 
@@ -266,8 +265,15 @@ class SnapshotHttpx:
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = await self._real_handle_async_request(transport, request)
-            self.requests.append(RequestSnapshot(key, rv))
+            # other requests may get made, while this request is waiting
+            snapshot = RequestSnapshot(key, None)
+            self.requests.append(snapshot)
+            try:
+                rv = await self._real_handle_async_request(transport, request)
+                snapshot.response = rv
+            finally:
+                if snapshot.response is None:
+                    self.requests.remove(snapshot)
 
         return rv
 
-- 
2.43.0


From 875d9e116ac3b364959412e6ad1b85c7d8425fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 28/58] fix: changing a result changed the function snapshot

---
 booktest/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 1cdb85a..9b4e62f 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -135,7 +135,7 @@ class SnapshotFunctions:
             if snapshot.match(call):
                 if snapshot not in self.calls:
                     self.calls.append(snapshot)
-                return snapshot.result
+                return copy.deepcopy(snapshot.result)
 
         if not self.capture_snapshots:
             raise ValueError(f"missing snapshot for function call {call.func()} - {call.hash}. "
@@ -145,7 +145,7 @@ class SnapshotFunctions:
 
         # remove old version, it may have been timeout
         self.calls = list([i for i in self.calls if not i.call == call])
-        self.calls.append(FunctionCallSnapshot(call, rv))
+        self.calls.append(FunctionCallSnapshot(call, copy.deepcopy(rv)))
 
         return rv
 
-- 
2.43.0


From 374667c9ce437e520d02b27c49b3d37d9e52e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 29/58] fix: repeated function calls were listed in different
 order when replayed

---
 booktest/functions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 9b4e62f..4d493aa 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -143,9 +143,14 @@ class SnapshotFunctions:
 
         rv = func(*args, **kwargs)
 
-        # remove old version, it may have been timeout
-        self.calls = list([i for i in self.calls if not i.call == call])
-        self.calls.append(FunctionCallSnapshot(call, copy.deepcopy(rv)))
+        snapshot = FunctionCallSnapshot(call, copy.deepcopy(rv))
+
+        if snapshot in self.calls:
+            # replace old version, it may have been timeout
+            # let's keep its place, because calls get replayed in this order
+            self.calls[self.calls.index(snapshot)] = snapshot
+        else:
+            self.calls.append(snapshot)
 
         return rv
 
-- 
2.43.0


From 2f53acdc6c19de678b558368118d1fa718371a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 30/58] fix: padding of a table cell hid changes of the cell's
 value

---
 booktest/testcaserun.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index ade188e..007f65e 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -770,12 +770,23 @@ s
                           .strip()
 
                 self.t(buf)
-                self.i(" " * (pads[j]-len(buf)))
+                self.pad(pads[j]-len(buf))
 
                 self.t("|")
             self.tln()
         return self
 
+    def pad(self, count):
+        """
+        Internal method. Writes padding, which is not compared. In the snapshot, padding
+        stands only for other padding, and never for e.g. the end of a longer value.
+        """
+        exp_token = self.head_exp_token()
+        if exp_token is None or exp_token.isspace():
+            self.i(" " * count)
+        else:
+            self.out_line += " " * count
+
     def tlist(self, list, prefix=" * "):
         """
         Writes the list into test stream. By default, the list
-- 
2.43.0


From 200a7c128f0f8a0cd35ae6f90da69d7b081c66ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 31/58] fix: records of other cases were lost when a run was
 killed while starting its report

---
 booktest/reports.py | 23 +++++++++++++++++------
 booktest/runs.py    |  9 +++------
 booktest/testrun.py | 13 ++++---------
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index 85b6920..cbe32a2 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -175,11 +175,22 @@ class CaseReports:
         return self.to_file(report_file)
 
     def to_file(self, file):
-        with open(file, "w") as f:
-            for i in self.cases:
-                CaseReports.write_case(f,
-                                       i[0],
-                                       i[1],
-                                       i[2])
+        self.to_open_file(file).close()
+
+    def to_open_file(self, file):
+        """
+        Writes the cases and leaves the file open for further cases.
+        The old file is there, until all cases are in the new one, so that
+        no case gets lost on interruptions
+        """
+        part_file = file + ".part"
+        f = open(part_file, "w")
+        for i in self.cases:
+            CaseReports.write_case(f,
+                                   i[0],
+                                   i[1],
+                                   i[2])
+        os.replace(part_file, file)
+        return f
 
 
diff --git a/booktest/runs.py b/booktest/runs.py
index 6fbacb4..40f8631 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -318,13 +318,10 @@ def parallel_run_tests(exp_dir,
     os.makedirs(out_dir, exist_ok=True)
     report_file = os.path.join(out_dir, "cases.txt")
 
-    with open(report_file, "w") as report_f:
-        # add previously passed items to test
-        for i in reports.cases:
-            if i[0] not in todo:
-                CaseReports.write_case(
-                    report_f, i[0], i[1], i[2])
+    # add previously passed items to test
+    kept_reports = CaseReports([i for i in reports.cases if i[0] not in todo])
 
+    with kept_reports.to_open_file(report_file) as report_f:
         reviewed = []
 
         def record_case(case_name, result, duration):
diff --git a/booktest/testrun.py b/booktest/testrun.py
index dde7fcd..396da1d 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -146,16 +146,11 @@ class TestRun:
         # 2.2. run test.
         #      update the report as we test to allow hitting
         #      CTRL-C and continuing from the last succesful test
-        with open(report_file, "w") as report_f:
+        #      previously passed items are kept in the report
+        kept_report = CaseReports([i for i in old_report.cases if i[0] not in todo])
+        with kept_report.to_open_file(report_file) as report_f:
 
-            # 2.2.1 add previously passed items to test
-            if old_report is not None:
-                for i in old_report.cases:
-                    if i[0] not in todo:
-                        CaseReports.write_case(
-                            report_f, i[0], i[1], i[2])
-
-            # 2.2.2 run cases
+            # 2.2.1 run cases
             for case_name in todo:
                 case = self.tests.get_case(case_name)
                 res, request, duration = \
-- 
2.43.0


From 84e19fd330b8f28233959f0fc0e6c2fb5fb4b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 32/58] fix: mocked methods of objects and classes were not
 restored as they were

---
 booktest/functions.py | 66 +++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 4d493aa..0ea5944 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -96,14 +96,36 @@ class FunctionSnapshotter:
         return str(self.func)
 
 
+_MISSING = object()
+
+
 def set_function(func, value):
+    """
+    @return what restore_function() needs for putting the earlier state back
+    """
     target = None
     if hasattr(func, "__self__"):
         target = func.__self__
     elif hasattr(func, "__module__"):
         target = sys.modules[func.__module__]
     name = func.__name__
+    old = getattr(target, "__dict__", {}).get(name, _MISSING)
     setattr(target, name, value)
+    return target, name, old
+
+
+def restore_function(target, name, old):
+    if old is _MISSING:
+        # the function was inherited or it is a method of an object's class
+        delattr(target, name)
+    else:
+        setattr(target, name, old)
+
+
+def restore_functions(replaced):
+    # the latest is restored first, because a function may be replaced many times
+    for i in reversed(replaced):
+        restore_function(*i)
 
 
 class SnapshotFunctions:
@@ -126,7 +148,7 @@ class SnapshotFunctions:
 
         self.snapshots = None
         self.calls = None
-        self.snapshotters = None
+        self.replaced = None
 
     def snapshot(self, func, *args, **kwargs):
         call = FunctionCall.from_properties(func, args, kwargs)
@@ -166,21 +188,21 @@ class SnapshotFunctions:
                     snapshots.append(
                         FunctionCallSnapshot.from_json_object(json.load(f)))
 
-        snapshotters = []
+        replaced = []
 
-        for func in self.snapshot_funcs:
-            snapshotter = FunctionSnapshotter(self, func)
-            set_function(func, snapshotter)
-            snapshotters.append(snapshotter)
+        try:
+            for func in self.snapshot_funcs:
+                replaced.append(set_function(func, FunctionSnapshotter(self, func)))
+        except Exception:
+            restore_functions(replaced)
+            raise
 
         self.snapshots = snapshots
         self.calls = []
-        self.snapshotters = snapshotters
+        self.replaced = replaced
 
     def stop(self):
-        for snapshotter in self.snapshotters:
-            func = snapshotter.func
-            set_function(func, func)
+        restore_functions(self.replaced)
 
         os.makedirs(self.mock_out_path, exist_ok=True)
 
@@ -190,7 +212,7 @@ class SnapshotFunctions:
             with open(os.path.join(self.mock_out_path, f"{name}.json"), "w") as f:
                 json.dump(snapshot.json_object(), f, indent=4)
 
-        self.snapshotters = None
+        self.replaced = None
         self.snapshots = None
         self.calls = None
 
@@ -237,25 +259,27 @@ class MockFunctions:
             mock_funcs = {}
 
         self.mock_funcs = mock_funcs
-        self._original_funcs = None
+        self._replaced = None
 
     def start(self):
-        if self._original_funcs is not None:
+        if self._replaced is not None:
             raise RuntimeError('FunctionSnapshots has already been started')
 
-        original_funcs = []
+        replaced = []
 
-        for func, mock in self.mock_funcs.items():
-            set_function(func, mock)
-            original_funcs.append(func)
+        try:
+            for func, mock in self.mock_funcs.items():
+                replaced.append(set_function(func, mock))
+        except Exception:
+            restore_functions(replaced)
+            raise
 
-        self._original_funcs = original_funcs
+        self._replaced = replaced
 
     def stop(self):
-        for func in self._original_funcs:
-            set_function(func, func)
+        restore_functions(self._replaced)
 
-        self._original_funcs = None
+        self._replaced = None
 
     def __enter__(self):
         self.start()
-- 
2.43.0


From 74ff62df1e8c5c55a03bb7dffb8dc193af702e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:29 +0000
Subject: [PATCH 33/58] fix: stacked env snapshots overwrote each other's
 variables

---
 booktest/env.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index edf2ad8..5bc12e6 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -55,7 +55,8 @@ class SnapshotEnv:
                     "try running booktest with '-s' flag to capture the missing snapshot")
 
             old_value = os.environ.get(name)
-            self._old_env[name] = old_value
+            # a name may be listed twice
+            self._old_env.setdefault(name, old_value)
             if name in self.snaphots:
                 value = self.snaphots[name]
                 set_env(name, value)
@@ -66,8 +67,15 @@ class SnapshotEnv:
     def stop(self):
         restore_env(self._old_env)
 
+        # the test may use also other env snapshots, that share the file
+        stored = {}
+        if os.path.exists(self.snapshot_out_path):
+            with open(self.snapshot_out_path, "r") as f:
+                stored = json.load(f)
+        stored.update(self.capture)
+
         with open(self.snapshot_out_path, "w") as f:
-            json.dump(self.capture, f, indent=4)
+            json.dump(stored, f, indent=4)
 
     def t_snapshots(self):
         self.t.h1("env snaphots:")
-- 
2.43.0


From 1e8720bc367224bd3a4106dee70e4b39c73d7bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 34/58] fix: imported TestBook class was listed as a test book
 of its own

---
 booktest/detection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/detection.py b/booktest/detection.py
index a30331f..995438a 100644
--- a/booktest/detection.py
+++ b/booktest/detection.py
@@ -68,6 +68,9 @@ def parse_test_file(root, f):
         member = getattr(module, name)
         if isinstance(member, type) and \
                 issubclass(member, bt.TestBook):
+            if member is bt.TestBook:
+                # imported base class is not a test book
+                continue
             member_signature = signature(member)
             needed_arguments = 0
             for parameter in member_signature.parameters.values():
-- 
2.43.0


From 43b4052ce2c309973dd497dee5d1d3b319cdb7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 35/58] fix: test found in several modules was listed many
 times in index

---
 booktest/tests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/tests.py b/booktest/tests.py
index a22d225..380e12e 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -106,7 +106,8 @@ class Tests:
         return rv
 
     def all_names(self):
-        return list(map(lambda x: x[0], self.cases))
+        # same test can be found many times, e.g. via imports
+        return list(dict.fromkeys(map(lambda x: x[0], self.cases)))
 
     def selected_names(self, selection, cache_out_dir=None):
         selected = []
-- 
2.43.0


From 4f950564b0ffbabfd28a26b30df7876e451beac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 36/58] fix: test books accepting any arguments were not found

---
 booktest/detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/detection.py b/booktest/detection.py
index 995438a..395ba8f 100644
--- a/booktest/detection.py
+++ b/booktest/detection.py
@@ -74,7 +74,8 @@ def parse_test_file(root, f):
             member_signature = signature(member)
             needed_arguments = 0
             for parameter in member_signature.parameters.values():
-                if parameter.default == Parameter.empty:
+                if parameter.default is Parameter.empty and \
+                   parameter.kind not in (Parameter.VAR_POSITIONAL, Parameter.VAR_KEYWORD):
                     needed_arguments += 1
             if needed_arguments == 0:
                 rv.append(member())
-- 
2.43.0


From d39244770afba8bf70382b9ba29860d6f84cd262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 37/58] fix: attribute with test prefix in a test book stopped
 the discovery

---
 booktest/testbook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testbook.py b/booktest/testbook.py
index 99000a5..440fa32 100644
--- a/booktest/testbook.py
+++ b/booktest/testbook.py
@@ -75,7 +75,7 @@ class TestBook(metaclass=OrderedClass):
         for name in self.member_names:
             if name.startswith("test_"):
                 for m in inspect.getmembers(self):
-                    if m[0] == name:
+                    if m[0] == name and inspect.ismethod(m[1]):
                         unbound = m[1].__func__
                         if not hasattr(unbound, "_self_type"):
                             unbound._self_type = type(self)
-- 
2.43.0


From f4302e0ac2eee53d07269ccfdb30e6443020a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 38/58] fix: cases like 'a.b' and 'a/b' shared a batch
 directory in parallel runs

---
 booktest/runs.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 40f8631..fcc7470 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -60,19 +60,16 @@ class RunBatch:
         self.setup = setup
 
     def __call__(self, case):
-        path = case.split("/")
-        batch_name = ".".join(path)
-        batch_dir = \
-            os.path.join(
-                self.out_dir,
-                ".batches",
-                batch_name)
+        batch_dir, _ = \
+            case_batch_dir_and_report_file(
+                os.path.join(
+                    self.out_dir,
+                    ".batches"),
+                case)
 
         output_file = \
             os.path.join(
-                self.out_dir,
-                ".batches",
-                batch_name,
+                batch_dir,
                 "output.txt")
 
         output = open(output_file, "w")
@@ -102,7 +99,9 @@ class RunBatch:
 
 
 def case_batch_dir_and_report_file(batches_dir, name):
-    path = ".".join(name.split("/"))
+    # different names must not share a directory, e.g. 'a.b/c' and 'a/b.c'
+    escaped = name.replace("%", "%25").replace(".", "%2E")
+    path = ".".join(escaped.split("/"))
     batch_dir = os.path.join(batches_dir, path)
     return batch_dir, os.path.join(batch_dir, "cases.txt")
 
-- 
2.43.0


From b80570c2ff5b39aa45218fd03cfb4c2c51d4041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:24 +0000
Subject: [PATCH 39/58] fix: tables of data frames with repeated labels or
 column names that are no text

---
 booktest/testcaserun.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 007f65e..1aea666 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -743,16 +743,25 @@ s
 
         NOTE: df should be of pd.DataFrame or compatible type
         """
+        # labels may be repeated, e.g. in concatenated data frames
+        def cell(row, column):
+            if hasattr(df, "iloc"):
+                return df.iloc[row, column]
+            return df[df.columns[column]][df.index[row]]
+
+        columns = [str(column).replace("\r", " ").replace("\n", " ")
+                   for column in df.columns]
+
         pads = []
-        for column in df.columns:
+        for j, column in enumerate(columns):
             max_len = len(column)
-            for i in df.index:
-                max_len = max(max_len, len(str(df[column][i])))
+            for i in range(len(df.index)):
+                max_len = max(max_len, len(str(cell(i, j))))
             pads.append(max_len)
 
         buf = ""
         buf += "|"
-        for i, column in enumerate(df.columns):
+        for i, column in enumerate(columns):
             buf += column.ljust(pads[i])
             buf += "|"
         self.iln(buf)
@@ -761,10 +770,10 @@ s
             buf += "-" * i
             buf += "|"
         self.tln(buf)
-        for i in df.index:
+        for i in range(len(df.index)):
             self.t("|")
-            for j, column in enumerate(df.columns):
-                buf = str(df[column][i])\
+            for j, column in enumerate(columns):
+                buf = str(cell(i, j))\
                           .replace("\r", " ")\
                           .replace("\n", " ")\
                           .strip()
-- 
2.43.0


From f97aefd9578a5f5ffae730c16bf8554b7e949dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:43 +0000
Subject: [PATCH 40/58] fix: dependency on a method of a base class book was
 not run first

---
 booktest/tests.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/tests.py b/booktest/tests.py
index 380e12e..654e6bf 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -77,6 +77,9 @@ class Tests:
             for dependency in method._dependencies:
                 bound_method = bind_dependent_method_if_unbound(method, dependency)
                 case = self.case_by_method(bound_method)
+                if case is None:
+                    # this book doesn't have the test, look elsewhere
+                    case = self.case_by_method(dependency)
                 if case is not None:
                     if self.is_selected(case, selection) or \
                        cache_out_dir is None or \
-- 
2.43.0


From eddccd95529b91c3e19dce78e632842d2ab27bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:15 +0000
Subject: [PATCH 41/58] fix: printed logs of a sequential run named the case
 without its path

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 1aea666..76d2bf6 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -242,7 +242,7 @@ s
         else:
             rv = TestResult.OK
 
-        maybe_print_logs(self.print, self.config, self.out_base_dir, self.name)
+        maybe_print_logs(self.print, self.config, self.run.out_dir, self.test_path)
 
         report_case_result(
             self.print,
-- 
2.43.0


From 33e7c9dce6aa97336e64a436b42717a174b807b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:09 +0000
Subject: [PATCH 42/58] fix: exit status of a parallel run quit in its review
 ignored the failures it had not reviewed

---
 booktest/runs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index fcc7470..71753b3 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -380,6 +380,8 @@ def parallel_run_tests(exp_dir,
                                        result,
                                        duration,
                                        False)
+                    if result != TestResult.OK:
+                        exit_code = -1
                     record_case(
                         case_name,
                         result,
-- 
2.43.0


From 86bf8a5dd3f3b352bcd2a95c6aba44f986edfc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:43 +0000
Subject: [PATCH 43/58] fix: review failed, if no run had got to its end

---
 booktest/reports.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index cbe32a2..7bdf213 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -88,7 +88,11 @@ class Metrics:
 
     @staticmethod
     def of_dir(dir):
-        return Metrics.of_file(os.path.join(dir, "metrics.json"))
+        try:
+            return Metrics.of_file(os.path.join(dir, "metrics.json"))
+        except (OSError, ValueError, KeyError):
+            # no run has got to its end
+            return Metrics(0)
 
 
 class CaseReports:
-- 
2.43.0


From 472ce069d1f97548bc003449e617a71d5449ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:43 +0000
Subject: [PATCH 44/58] fix: review and forget failed before the first run

---
 booktest/reports.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/booktest/reports.py b/booktest/reports.py
index 7bdf213..06b6d08 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -187,6 +187,7 @@ class CaseReports:
         The old file is there, until all cases are in the new one, so that
         no case gets lost on interruptions
         """
+        os.makedirs(os.path.dirname(file) or ".", exist_ok=True)
         part_file = file + ".part"
         f = open(part_file, "w")
         for i in self.cases:
-- 
2.43.0


From b32c7a2229a1b1f4704177a0e2cb8b022c965b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:48 +0000
Subject: [PATCH 45/58] fix: repeating an interrupted review lost the files of
 the case that was being accepted

---
 booktest/review.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/review.py b/booktest/review.py
index 92d6fbe..0b01c2f 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -93,6 +93,9 @@ def freeze_case(exp_dir,
 
     if not path.exists(out_file_name) and path.exists(exp_file_name):
         # this output has already been accepted
+        if path.exists(out_dir_name) and not path.exists(exp_dir_name):
+            # it was interrupted before its files were moved
+            os.rename(out_dir_name, exp_dir_name)
         return
 
     # destroy old test related files
-- 
2.43.0


From 165cf48af2cfa3f55d075410a3030ea99f0f9166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:26 +0000
Subject: [PATCH 46/58] fix: repeated headers, e.g. cookies, of httpx responses
 were replayed as one header

---
 booktest/httpx.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index e5fb06b..07e45ed 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -158,9 +158,12 @@ class RequestSnapshot:
         payload = self.response.content
 
         # remove possible compression
-        headers = dict(self.response.headers)
-        if "content-encoding" in headers:
-            del headers["content-encoding"]
+        headers = [[key, value]
+                   for key, value in self.response.headers.multi_items()
+                   if key != "content-encoding"]
+        if len(dict(headers)) == len(headers):
+            headers = dict(headers)
+        # otherwise a header, e.g. set-cookie, is repeated
 
         rv = {
             "request": self.request.to_json_object(hide_details),
-- 
2.43.0


From fcb69e870b3fbeb1ff8460fd169d39428051725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:53 +0000
Subject: [PATCH 47/58] fix: cookies of requests responses were not replayed

---
 booktest/requests.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/booktest/requests.py b/booktest/requests.py
index 04401bf..7a47182 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -1,6 +1,7 @@
 import contextlib
 import functools
 import hashlib
+import http.client
 import os
 import types
 import booktest as bt
@@ -134,6 +135,22 @@ class RequestKey:
         return type(other) == RequestKey and self.hash == other.hash
 
 
+def get_set_cookies(response: requests.Response):
+    """ requests reads cookies from the raw response """
+    original = getattr(response.raw, "_original_response", None)
+    if original is None:
+        return []
+    return original.msg.get_all("Set-Cookie") or []
+
+
+def set_set_cookies(response: requests.Response, set_cookies):
+    message = http.client.HTTPMessage()
+    for i in set_cookies:
+        message["Set-Cookie"] = i
+    response.raw = types.SimpleNamespace(
+        _original_response=types.SimpleNamespace(msg=message))
+
+
 class RequestSnapshot:
 
     def __init__(self,
@@ -159,6 +176,8 @@ class RequestSnapshot:
         else:
             response._content = response_json["content"].encode()
         response._content_consumed = True
+        if "setCookie" in response_json:
+            set_set_cookies(response, response_json["setCookie"])
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -170,6 +189,9 @@ class RequestSnapshot:
             "reason": self.response.reason,
             "encoding": self.response.encoding
         }
+        set_cookies = get_set_cookies(self.response)
+        if len(set_cookies) > 0:
+            response["setCookie"] = set_cookies
         try:
             response["content"] = self.response.content.decode()
         except UnicodeDecodeError:
@@ -224,6 +246,10 @@ class SnapshotAdapter(adapters.BaseAdapter):
                     self.requests.append(snapshot)
                 snapshot.response.url = request.url
                 snapshot.response.request = request
+                requests.cookies.extract_cookies_to_jar(
+                    snapshot.response.cookies,
+                    request,
+                    snapshot.response.raw)
                 return key, snapshot.response
 
         if not self.capture_snapshots:
-- 
2.43.0


From 4d515fe2f0c1de59e58b7ff0a95673b636629d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:53 +0000
Subject: [PATCH 48/58] fix: timeout, verify, proxies and the like were
 ignored, when requests were captured

---
 booktest/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 7a47182..389d88f 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -262,7 +262,7 @@ class SnapshotAdapter(adapters.BaseAdapter):
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = adapters.HTTPAdapter().send(request)
+            rv = adapters.HTTPAdapter().send(request, **kwargs)
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
-- 
2.43.0


From b2fe8d9ccccb634d30f6abcbd0f4d81677065430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:53 +0000
Subject: [PATCH 49/58] fix: responses read as a stream could not be captured

---
 booktest/httpx.py    | 3 +++
 booktest/requests.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 07e45ed..61edc0d 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -260,6 +260,8 @@ class SnapshotHttpx:
 
         if rv is None:
             rv = self._real_handle_request(transport, request)
+            # the test may read the response as a stream, which can be read only once
+            rv.read()
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
@@ -273,6 +275,7 @@ class SnapshotHttpx:
             self.requests.append(snapshot)
             try:
                 rv = await self._real_handle_async_request(transport, request)
+                await rv.aread()
                 snapshot.response = rv
             finally:
                 if snapshot.response is None:
diff --git a/booktest/requests.py b/booktest/requests.py
index 389d88f..84d24c5 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -263,6 +263,8 @@ class SnapshotAdapter(adapters.BaseAdapter):
 
         if rv is None:
             rv = adapters.HTTPAdapter().send(request, **kwargs)
+            # the test may read the response as a stream, which can be read only once
+            rv.content
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
-- 
2.43.0


From def9ff6451dde93761a23a7b36de9341a1dc8ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:03 +0000
Subject: [PATCH 50/58] fix: elapsed time of httpx responses could not be asked
 for in replays

---
 booktest/httpx.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 61edc0d..354afbe 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -1,4 +1,5 @@
 import contextlib
+import datetime
 import functools
 import hashlib
 import os
@@ -12,6 +13,7 @@ import booktest as bt
 import httpx
 import json
 import threading
+import time
 import sys
 import six
 import copy
@@ -150,6 +152,7 @@ class RequestSnapshot:
         response = httpx.Response(response_json["statusCode"],
                                   headers=response_json["headers"],
                                   content=content)
+        response.elapsed = datetime.timedelta()
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -259,9 +262,11 @@ class SnapshotHttpx:
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
+            before = time.perf_counter()
             rv = self._real_handle_request(transport, request)
             # the test may read the response as a stream, which can be read only once
             rv.read()
+            rv.elapsed = datetime.timedelta(seconds=time.perf_counter() - before)
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
@@ -274,8 +279,10 @@ class SnapshotHttpx:
             snapshot = RequestSnapshot(key, None)
             self.requests.append(snapshot)
             try:
+                before = time.perf_counter()
                 rv = await self._real_handle_async_request(transport, request)
                 await rv.aread()
+                rv.elapsed = datetime.timedelta(seconds=time.perf_counter() - before)
                 snapshot.response = rv
             finally:
                 if snapshot.response is None:
-- 
2.43.0


From 0ac2d4e98ff78e4bcaf80ffbfef6c05a14ff5eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:03 +0000
Subject: [PATCH 51/58] fix: asynchronous httpx requests with a streamed body
 could not be snapshotted

---
 booktest/httpx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 354afbe..ba91b80 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -272,6 +272,8 @@ class SnapshotHttpx:
         return rv
 
     async def handle_async_request(self, transport: httpx.AsyncHTTPTransport, request: httpx.Request):
+        # the body may be an asynchronous stream
+        await request.aread()
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-- 
2.43.0


From 7a2f7ff8a7a18794b744ea6e29b7cb998b4ccff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:03 +0000
Subject: [PATCH 52/58] fix: further requests made by authentication were not
 snapshotted

---
 booktest/requests.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/requests.py b/booktest/requests.py
index 84d24c5..6515a0c 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -267,6 +267,9 @@ class SnapshotAdapter(adapters.BaseAdapter):
             rv.content
             self.requests.append(RequestSnapshot(key, rv))
 
+        # further requests, e.g. of authentication, are made with the connection
+        rv.connection = self
+
         return rv
 
 
-- 
2.43.0


From f10efd00c4cbd6301a53d076f4cb327176ffc25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:55 +0000
Subject: [PATCH 53/58] fix: from booktest import * raised TypeError

---
 booktest/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/booktest/__init__.py b/booktest/__init__.py
index 6a9ee5e..19d461a 100644
--- a/booktest/__init__.py
+++ b/booktest/__init__.py
@@ -15,7 +15,7 @@ from booktest.env import snapshot_env, mock_env, mock_missing_env
 from booktest.utils import combine_decorators, setup_teardown
 
 
-__all__ = {
+__all__ = [
     "TestTokenizer",
     "BufferIterator",
     "TestResult",
@@ -44,5 +44,5 @@ __all__ = {
     "mock_env",
     "combine_decorators",
     "setup_teardown"
-}
+]
 
-- 
2.43.0


From 7b07fc3afd00892a665b64dd94eeab76e897fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:55 +0000
Subject: [PATCH 54/58] fix: a default without a truth value (e.g. an array)
 broke the detection

---
 booktest/detection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/booktest/detection.py b/booktest/detection.py
index 395ba8f..2e24de8 100644
--- a/booktest/detection.py
+++ b/booktest/detection.py
@@ -47,7 +47,7 @@ def parse_booktest_setup(root, f):
             member_signature = signature(method)
             needed_arguments = 0
             for parameter in member_signature.parameters.values():
-                if parameter.default == Parameter.empty:
+                if parameter.default is Parameter.empty:
                     needed_arguments += 1
 
             if needed_arguments != 0:
@@ -86,7 +86,7 @@ def parse_test_file(root, f):
             member_signature = signature(member)
             needed_arguments = 0
             for parameter in member_signature.parameters.values():
-                if parameter.default == Parameter.empty:
+                if parameter.default is Parameter.empty:
                     needed_arguments += 1
             test_cases.append((os.path.join(test_suite_name, clean_method_name(name)), member))
 
-- 
2.43.0


From ed23e71055d7acfdf2f7d2d0da718d3064e7bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:55 +0000
Subject: [PATCH 55/58] fix: a tested set with equal texts differed from itself

---
 booktest/testcaserun.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 76d2bf6..2e97522 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -8,6 +8,7 @@ import shutil
 
 import sys
 import json
+from collections import Counter
 
 from booktest.review import report_case_begin, case_review, report_case_result, maybe_print_logs
 from booktest.tokenizer import TestTokenizer, BufferIterator
@@ -829,10 +830,10 @@ s
 
         if self.exp_file_exists:
             begin = self.exp_line_number
-            compare = set()
+            compare = Counter()
             while (self.exp_line is not None
                    and self.exp_line.startswith(prefix)):
-                compare.add(self.exp_line[len(prefix):])
+                compare[self.exp_line[len(prefix):]] += 1
                 self.next_exp_line()
             end = self.exp_line_number
 
@@ -840,15 +841,15 @@ s
             i_str = str(i)
             line = f"{prefix}{i_str}"
             if compare is not None:
-                if i_str in compare:
+                if compare[i_str] > 0:
                     self.seek_line(line, begin, end)
-                    compare.remove(i_str)
+                    compare[i_str] -= 1
                 else:
                     self.diff()
             self.iln(line)
 
         if compare is not None:
-            if len(compare) > 0:
+            if any(compare.values()):
                 self.diff()
             self.jump(end)
 
-- 
2.43.0


From c45b28b938d8a83cf5ec29d4fa5e8f4c3269c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:22 +0000
Subject: [PATCH 56/58] fix: a parallel run interrupted in its review does not
 exit with success

---
 booktest/runs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index 71753b3..0ed3d73 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -358,6 +358,7 @@ def parallel_run_tests(exp_dir,
                         duration)
 
             except KeyboardInterrupt as e:
+                exit_code = -1
                 runner.abort()
                 for i in runner.todo - runner.done:
                     print(f"  {i}..interrupted")
-- 
2.43.0


From 31f9ca11f9af9a366aa76598497101858172b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:27 +0000
Subject: [PATCH 57/58] fix: a failing viewer does not make booktest exit with
 success

---
 booktest/review.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/review.py b/booktest/review.py
index 0b01c2f..3c581c1 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -18,7 +18,8 @@ def run_tool(config, tool, args):
     """ Run a tool used in reviews """
     cmd = config.get(tool, None)
     if cmd is not None:
-        return os.system(f"{cmd} {args}")
+        # the wait status would be taken modulo 256, when used as exit status
+        return 0 if os.system(f"{cmd} {args}") == 0 else 1
     else:
         print(f"{tool} is not defined.")
         print(f"please define it in .booktest file or as env variable " +
-- 
2.43.0


From 0ba6d190426abcae11dd06893d0aaaa668081c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:37 +0000
Subject: [PATCH 58/58] fix: keep the requests of all snapshotting helpers of a
 test

A test with two helpers, that capture their own requests, stored only
the requests of the last one, and failed when run again.
---
 booktest/httpx.py    | 4 ++++
 booktest/requests.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index ba91b80..3b306c7 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -330,6 +330,10 @@ class SnapshotHttpx:
 
         # let's store everything in one file to avoid spamming git
         stored = {}
+        # the test may have captured also other requests, that share the file
+        if os.path.exists(self.mock_out_file):
+            with open(self.mock_out_file, "r") as f:
+                stored = json.load(f)
         for snapshot in self.requests:
             name = snapshot.hash()
             stored[name] = snapshot.json_object(self._lose_request_details)
diff --git a/booktest/requests.py b/booktest/requests.py
index 6515a0c..e06ef0f 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -410,6 +410,10 @@ class SnapshotRequests:
 
         # let's store everything in one file to avoid spamming git
         stored = {}
+        # the test may have captured also other requests, that share the file
+        if os.path.exists(self.mock_out_file):
+            with open(self.mock_out_file, "r") as f:
+                stored = json.load(f)
         for snapshot in self._adapter.requests:
             name = snapshot.hash()
             stored[name] = snapshot.json_object(self._lose_request_details)
-- 
2.43.0

