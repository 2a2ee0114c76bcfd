From 934238c913f66768071019705817686163a5f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:31 +0000
Subject: [PATCH 01/80] fix: repetition of an expression that consumes nothing
 must end

---
 mo_parsing/enhancement.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 47cd4b3..352cdb2 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -249,13 +249,14 @@ class Many(ParseEnhancement):
                         else:
                             raise ParseException(self, end, string, msg="found stopper too soon")
                 result = self.expr._parse(string, index, do_actions)
+                if result.end == result.start:
+                    break  # NO PROGRESS, ALL FURTHER MATCHES WILL BE THE SAME
                 end = result.end
-                if result.end - result.start:
-                    acc.append(result)
-                    failures.extend(result.failures)
-                    count += 1
-                    if count >= max:
-                        break
+                acc.append(result)
+                failures.extend(result.failures)
+                count += 1
+                if count >= max:
+                    break
 
         except ParseException as cause:
             failures.append(cause)
-- 
2.43.0


From 914bd25ec99078097fda03ec4a1bcfc819d6d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:43 +0000
Subject: [PATCH 02/80] fix: CaselessLiteral must not escape its pattern twice

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 11ea5fa..53890ea 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -262,7 +262,7 @@ class CaselessLiteral(Literal):
             Log.error("Literal must be at least one character")
         Token.__init__(self)
         self.set_config(
-            match=match, regex=regex_compile(regex_caseless(re.escape(match))),
+            match=match, regex=regex_compile(regex_caseless(match)),
         )
         self.parser_name = match
 
-- 
2.43.0


From 6967129f795bdac69cfa0f53d704efd1dc2c39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:55 +0000
Subject: [PATCH 03/80] fix: Word with max=1 and distinct body characters must
 match one character only

---
 mo_parsing/tokens.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 53890ea..b877b3c 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -373,6 +373,8 @@ class Word(Token):
             if init_chars.__class__.__name__ == "Regex":
                 init_chars = init_chars.expecting().keys()
             prec, regexp = Char(init_chars, exclude=exclude)[min:max].__regex__()
+        elif max == 1:
+            prec, regexp = Char(init_chars, exclude=exclude).__regex__()
         elif max is None or max == MAX_INT:
             with whitespaces.NO_WHITESPACE:
                 prec, regexp = (
-- 
2.43.0


From f7785d8dd0714c57d3c05f1ec13fb701266c0475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:08 +0000
Subject: [PATCH 04/80] fix: CharsNotIn length limits need a regex quantifier

---
 mo_parsing/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index b877b3c..636506b 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -516,11 +516,11 @@ class CharsNotIn(Token):
             elif min == 1:
                 suffix = "+"
             else:
-                suffix = "{" + str(min) + ":}"
+                suffix = "{" + str(min) + ",}"
         elif min == 1 and max == 1:
             suffix = ""
         else:
-            suffix = "{" + str(min) + ":" + str(max) + "}"
+            suffix = "{" + str(min) + "," + str(max) + "}"
 
         self.set_config(
             regex=regex_compile(regex + suffix),
-- 
2.43.0


From 7460d7adfb367d5975471beba81b23955db7fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:21 +0000
Subject: [PATCH 05/80] fix: White at end of text is a parse failure, and its
 tokens are a list

---
 mo_parsing/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 636506b..1fb717b 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -602,7 +602,7 @@ class White(Token):
         self.set_config(min_len=min, max_len=max, white_chars=white_chars)
 
     def parse_impl(self, string, start, do_actions=True):
-        if string[start] not in self.parser_config.white_chars:
+        if start >= len(string) or string[start] not in self.parser_config.white_chars:
             raise ParseException(self, start, string)
         end = start
         end += 1
@@ -615,7 +615,7 @@ class White(Token):
             raise ParseException(self, end, string)
 
         return ParseResults(
-            self, start, end, string[start:end], [ParseException(self, end, string)]
+            self, start, end, [string[start:end]], [ParseException(self, end, string)]
         )
 
     def reverse(self):
-- 
2.43.0


From 0efd2d9966bbf4d38dc2c5832abe63fbfa74db2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:32 +0000
Subject: [PATCH 06/80] fix: StringStart must return a ParseResults

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 1fb717b..5333262 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -699,7 +699,7 @@ class StringStart(Token):
             # see if entire string up to here is just whitespace and ignoreables
             # if loc != self.whitespace.skip(string, 0):
             raise ParseException(self, loc, string)
-        return []
+        return ParseResults(self, loc, loc, [], [])
 
     def min_length(self):
         return 0
-- 
2.43.0


From 687c96e13a7508a1de5f353db30f33145ede7778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:43 +0000
Subject: [PATCH 07/80] fix: CloseMatch must end where the compared text ends

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 5333262..cdc6a04 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -327,7 +327,7 @@ class CloseMatch(Token):
                     if len(mismatches) > max_mismatches:
                         break
             else:
-                end = match_stringloc + 1
+                end = maxloc
                 results = ParseResults(self, start, end, [string[start:end]], [])
                 results["original"] = match
                 results["mismatches"] = mismatches
-- 
2.43.0


From 8eaa8d19dc85fc28f535d7e0cba9de0bd0e7d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 08/80] fix: only the regex of a plain token decides a negative
 look-ahead, otherwise try the expression

---
 mo_parsing/enhancement.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 352cdb2..b7a90de 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -152,17 +152,18 @@ class NotAny(LookAhead):
 
     def parse_impl(self, string, start, do_actions=True):
         regex = self.regex
-        if regex:
+        if regex and isinstance(self.expr, Token) and not self.expr.parse_action:
             found = regex.match(string, start)
             if found:
                 return ParseResults(self, start, start, [], [])
             raise ParseException(self, start, string) from None
-        else:
-            try:
-                self.expr.parse(string, start, do_actions=True)
-                raise ParseException(self, start, string) from None
-            except:
-                return ParseResults(self, start, start, [], [])
+
+        # ONLY TOKENS ARE SURE TO MATCH THE SAME AS THEIR REGEX
+        try:
+            self.expr._parse(string, start)
+        except ParseException:
+            return ParseResults(self, start, start, [], [])
+        raise ParseException(self, start, string) from None
 
     def streamline(self):
         output = ParseEnhancement.streamline(self)
-- 
2.43.0


From d55550432da417da431f3bd3f13e1911073d4151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:00 +0000
Subject: [PATCH 09/80] fix: the regex of LineStart must match at the start of
 every line

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index cdc6a04..bed38ba 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -647,7 +647,7 @@ class LineStart(Token):
         return LineEnd()
 
     def __regex__(self):
-        return "*", "^"
+        return "*", "(?m:^)"
 
 
 class LineEnd(Token):
-- 
2.43.0


From 65bff83bc31cd8ca7dc88327ac896f07f4aa2fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:08 +0000
Subject: [PATCH 10/80] fix: add_ignore must add all the given expressions

---
 mo_parsing/whitespaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/whitespaces.py b/mo_parsing/whitespaces.py
index f3cf1bf..7815d90 100644
--- a/mo_parsing/whitespaces.py
+++ b/mo_parsing/whitespaces.py
@@ -123,7 +123,7 @@ class Whitespace(ParserElement):
             self.content = None
             self.expr = None if isinstance(Empty, Expecting) else Empty()
             self.regex = re.compile(self.__regex__()[1], re.DOTALL)
-            return self
+        return self
 
     def backup(self):
         return Backup(self)
-- 
2.43.0


From 809bbd0d69c225520a50a6801af082c68573dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:17 +0000
Subject: [PATCH 11/80] fix: look-ahead and look-behind consume nothing, so
 their min_length is zero

---
 mo_parsing/enhancement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index b7a90de..fa809f7 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -121,6 +121,9 @@ class LookAhead(ParseEnhancement):
 
         return ParseResults(self, start, start, [result], result.failures)
 
+    def min_length(self):
+        return 0
+
     def __regex__(self):
         return "*", f"(?={self.expr.__regex__()[1]})"
 
-- 
2.43.0


From ca371118cf8b05b737a081f5e565418d11180646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:25 +0000
Subject: [PATCH 12/80] fix: left recursion through MatchAll must be detected

---
 mo_parsing/expressions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index e363941..cf36076 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -842,6 +842,11 @@ class MatchAll(ParseExpression):
 
         return ParseResults(self, results[0].start, results[-1].end, results, failures)
 
+    def check_recursion(self, seen=empty_tuple):
+        seen_more = seen + (self,)
+        for e in self.exprs:
+            e.check_recursion(seen_more)
+
     def __str__(self):
         if self.parser_name:
             return self.parser_name
-- 
2.43.0


From b711c1aeb7641cff809b93f4f7eeae33611ee7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:34 +0000
Subject: [PATCH 13/80] fix: Optional must not share its default list with
 results

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index fa809f7..3c95356 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -409,7 +409,7 @@ class Optional(Many):
             results = self.expr._parse(string, start, do_actions)
             return ParseResults(self, results.start, results.end, [results], results.failures)
         except ParseException as pe:
-            return ParseResults(self, start, start, self.parser_config.default_value, [pe])
+            return ParseResults(self, start, start, list(self.parser_config.default_value), [pe])
 
     def __str__(self):
         if self.parser_name:
-- 
2.43.0


From 2d8c92f03eb02e972d253118dca3a2b4cba5ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:42 +0000
Subject: [PATCH 14/80] fix: Char(as_keyword=True) must use its own pattern

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index bed38ba..b26c766 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -449,7 +449,7 @@ class Char(Token):
             regex = regex_range(include)
 
         if as_keyword:
-            regex = r"\b%s\b" % self
+            regex = r"\b%s\b" % regex
         self.set_config(regex=regex_compile(regex), include=include, exclude=exclude)
 
     def parse_impl(self, string, start, do_actions=True):
-- 
2.43.0


From 79ee0df5a5163c587463fb071f3d149c6ba2134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:50 +0000
Subject: [PATCH 15/80] fix: regex_range must keep every character

---
 mo_parsing/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index c89a6e8..00b18c3 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -107,8 +107,8 @@ def regex_range(s, exclude=False):
     start = None
     prev = None
     acc = ["[^"] if exclude else ["["]
-    for c in list(sorted(set(s))) + ["\a"]:
-        if prev and ord(prev) == ord(c) - 1:
+    for c in list(sorted(set(s))) + [None]:
+        if prev and c and ord(prev) == ord(c) - 1:
             if not start:
                 start = prev
         elif start:
-- 
2.43.0


From b390af61740a3d4cf38f81dd99c6def4e16752e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:59 +0000
Subject: [PATCH 16/80] fix: scanning must not report a match twice

---
 mo_parsing/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 456af6f..afa48af 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -200,8 +200,8 @@ class Parser(object):
             else:
                 matches += 1
                 yield tokens, tokens.start, tokens.end
-                if overlap or tokens.end <= end:
-                    end += 1
+                if overlap or tokens.end <= tokens.start:
+                    end = tokens.start + 1
                 else:
                     end = tokens.end
 
-- 
2.43.0


From 104d0014d26c092414f67cca077ead130f7779bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:07 +0000
Subject: [PATCH 17/80] fix: transform_string must accept tokens that are not
 text

---
 mo_parsing/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index afa48af..2d2ef2b 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -239,9 +239,9 @@ class Parser(object):
             t = t.tokens[0]
             if t:
                 if isinstance(t, ParseResults):
-                    out.append("".join(t))
+                    out.append("".join(map(text, t._asStringList())))
                 elif isinstance(t, list):
-                    out.append("".join(t))
+                    out.append("".join(map(text, t)))
                 else:
                     out.append(t)
             end = e
-- 
2.43.0


From b5d4eb0e64c69d962110ce5726ad585394f397d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:15 +0000
Subject: [PATCH 18/80] fix: a condition on no tokens is false, not an error

---
 mo_parsing/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 2d2ef2b..4f460b4 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -404,7 +404,7 @@ class ParserElement(object):
         def make_cond(fn):
             def cond(token, index, string):
                 result = fn(token, index, string)
-                if not bool(result.tokens[0]):
+                if not result.tokens or not result.tokens[0]:
                     error = ParseException(token.type, index, string, msg=message)
                     if fatal:
                         Log.error("fatal error", cause=error)
-- 
2.43.0


From 76c9901fcc23743e9c34af9c70e4a62e90f71bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:54 +0000
Subject: [PATCH 19/80] fix: the prefix lookup of choices must not drop,
 reorder or take apart alternatives

---
 mo_parsing/enhancement.py |  6 ++++++
 mo_parsing/expressions.py | 22 ++++++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 3c95356..48a5cbf 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -445,6 +445,9 @@ class SkipTo(ParseEnhancement):
         )
         self.parser_name = str(self)
 
+    def expecting(self):
+        return {}  # SKIPPED TEXT CAN BE ANYTHING
+
     def min_length(self):
         return 0
 
@@ -906,6 +909,9 @@ class PrecededBy(LookAhead):
         ret.__class__ = Annotation
         return ParseResults(self, start, start, [ret], [])
 
+    def expecting(self):
+        return {}  # MATCHES THE TEXT BEFORE, NOT THE TEXT AHEAD
+
     def __regex__(self):
         if self.parser_config.exact:
             return "*", f"(?<={self.expr.__regex__()[1]})"
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index cf36076..9b2cea1 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -595,7 +595,7 @@ def faster(exprs):
     out = []
     has_expecting = True
     for o in exprs:
-        p = o.expecting()
+        p = _prefixes(o)
         if has_expecting:
             if p:
                 acc.append(p)
@@ -626,6 +626,19 @@ def faster(exprs):
     return alternating
 
 
+def _prefixes(expr):
+    """
+    RETURN {prefix: [expr]} WHERE ALL MATCHES START WITH ONE OF THE prefix (IGNORING CASE)
+    RETURN {} IF NOTHING IS KNOWN
+    """
+    if not expr.min_length():
+        return {}  # CAN MATCH WITHOUT ANY PREFIX
+    expect = expr.expecting()
+    if not all(k and k.isascii() for k in expect):
+        return {}  # CASE CONVERSION MAY CHANGE LENGTH
+    return OrderedDict((k, [expr]) for k in expect)
+
+
 def _distinct(a, b):
     """
     ASSUME a != b
@@ -647,11 +660,14 @@ class Fast(ParserElement):
 
         all_keys = set()
         lookup = OrderedDict()
+        rank = {}
         for m in maps:
             for k, ee in m.items():
                 k = k.lower()
                 all_keys.add(k)
                 lookup.setdefault(k, []).extend(ee)
+                for e in ee:
+                    rank.setdefault(id(e), len(rank))
 
         # patterns must be mutually exclusive to work
         items = list(lookup.items())
@@ -672,7 +688,9 @@ class Fast(ParserElement):
                     acc.extend(ee)
                     ee.clear()
             if acc:
-                compact.append((min_k, acc))
+                # ALTERNATIVES ARE TRIED ONCE, IN THE ORIGINAL ORDER
+                unique = {rank[id(a)]: a for a in acc}
+                compact.append((min_k, [unique[r] for r in sorted(unique)]))
         if len(maps) - max(len(v) for k, v in compact) <= 1:
             Log.error("not useful")
 
-- 
2.43.0


From 0ba04381ff9ae1e1872de81b60923e8398c1b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:02 +0000
Subject: [PATCH 20/80] fix: Regex with escapes unknown to its grammar has no
 known prefix nor length

---
 mo_parsing/regex.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 57489fe..04dcd98 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -356,9 +356,13 @@ class Regex(ParseEnhancement):
         return output
 
     def expecting(self):
+        if _unknown_escape.search(self.regex.pattern):
+            return {}
         return OrderedDict((k, [self]) for k in self.expr.expecting().keys())
 
     def min_length(self):
+        if _unknown_escape.search(self.regex.pattern):
+            return 0
         return self.expr.min_length()
 
     def __regex__(self):
@@ -368,6 +372,8 @@ class Regex(ParseEnhancement):
             return self.expr.__regex__()
 
 
+# ESCAPES THAT ARE PARSED AS JUST THE ESCAPED CHARACTER
+_unknown_escape = regex_compile(r"\\[^\W_sSwWdDnrt]")
 _plain_group = Group(None)
 
 export("mo_parsing.core", "regex_parameters", parameters)
-- 
2.43.0


From 83ae6868be2d82c656b8eefa06e578d48657f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:12 +0000
Subject: [PATCH 21/80] fix: Or must return the result, and fail when no
 alternative survives

---
 mo_parsing/expressions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 9b2cea1..7f8d2d2 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -439,7 +439,7 @@ class Or(ParseExpression):
             for loc, expr in matches:
                 if loc <= longest[0]:
                     # already have a longer match than this one will deliver, we are done
-                    return longest
+                    return longest[1]
 
                 try:
                     result = expr._parse(string, start, do_actions)
@@ -461,7 +461,9 @@ class Or(ParseExpression):
                         )
 
             if longest != (-1, None):
-                return longest
+                return longest[1]
+
+            raise ParseException(self, start, string, cause=failures)
 
     def check_recursion(self, seen=empty_tuple):
         seen_more = seen + (self,)
-- 
2.43.0


From 0b2a3ae8a567532228eb2f99eaff1632fadc9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:20 +0000
Subject: [PATCH 22/80] fix: Or must not take apart the ordered choices it is
 given

---
 mo_parsing/expressions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 7f8d2d2..b723d1c 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -100,11 +100,6 @@ class ParseExpression(ParserElement):
         acc = []
         same = True
         clazz = self.__class__
-        if clazz == Or:
-            clazz = (
-                Or,
-                MatchFirst,
-            )  # TODO: not correct, but allows merging of the two to a single longer list
         for e in self.exprs:
             f = e.streamline()
             same = same and f is e
-- 
2.43.0


From e20357fa9d2a6cf30a9f21a80d568cbfc1aa1ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:28 +0000
Subject: [PATCH 23/80] fix: debugging must give parse actions the start of the
 match and refuse rollback

---
 mo_parsing/debug.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index bb79046..417b65c 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -11,6 +11,7 @@ from mo_parsing.utils import (
     stack_depth,
     quote as plain_quote,
     ParseException,
+    Log,
 )
 
 DEBUGGER = None
@@ -59,7 +60,13 @@ def _debug_parse(debugger):
         if self.parse_action and (do_actions or self.parser_config.callDuringTry):
             try:
                 for fn in self.parse_action:
-                    tokens = fn(tokens, start, string)
+                    next_tokens = fn(tokens, tokens.start, string)
+                    if next_tokens.end < tokens.end:
+                        Log.error(
+                            "parse action {{name}} not allowed to roll back the end of parsing",
+                            name=fn.__name__
+                        )
+                    tokens = next_tokens
             except Exception as cause:
                 fail(self, start, string, cause)
                 raise
-- 
2.43.0


From 7eddcef1c5814403912e4a3336badf1b59227864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:36 +0000
Subject: [PATCH 24/80] fix: look-behind must match up to the position, not
 less

---
 mo_parsing/enhancement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 48a5cbf..ea3f909 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -890,16 +890,18 @@ class PrecededBy(LookAhead):
             if loc < 0:
                 raise ParseException(self, start, string)
             ret = self.expr._parse(string, loc)
+            if ret.end != start:
+                raise ParseException(self, start, string)
         else:
             # retreat specified a maximum lookbehind window, iterate
-            test_expr = self.expr + StringEnd()
             instring_slice = string[:start]
             last_cause = ParseException(self, start, string)
 
             for offset in range(self.parser_config.retreat, start + 1):
                 try:
-                    ret = test_expr._parse(instring_slice, start - offset)
-                    break
+                    ret = self.expr._parse(instring_slice, start - offset)
+                    if ret.end == start:
+                        break
                 except ParseException as cause:
                     last_cause = cause
             else:
-- 
2.43.0


From 306746eb54b7eedba08691b63d7c88360f84d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:45 +0000
Subject: [PATCH 25/80] fix: caseless patterns for characters whose case
 conversion is longer

---
 mo_parsing/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 00b18c3..ff2367f 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -80,11 +80,10 @@ def regex_caseless(literal):
     """
     RETURN REGEX FOR CASELESS VERSION OF GIVEN LITERAL (SO WE DO NOT NEED CASELESS MODE)
     """
-    lower = literal.lower()
-    upper = literal.upper()
     return "".join(
-        f"[{re.escape(l)}{re.escape(u)}]" if l != u else re.escape(u)
-        for l, u in zip(lower, upper)
+        f"[{re.escape(l)}{re.escape(u)}]" if l != u and len(l) == len(u) == 1 else re.escape(c)
+        for c in literal
+        for l, u in [(c.lower(), c.upper())]
     )
 
 
-- 
2.43.0


From 3caa671e9c3ad0a5ecf6cf20b8cd34281fa8eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:53 +0000
Subject: [PATCH 26/80] fix: a parse action returning its own tokens must not
 double the failures

---
 mo_parsing/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index ff2367f..743e547 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -337,7 +337,8 @@ def wrap_parse_action(func):
             elif isinstance(result, ParseResults):
                 if (result.start < token.start) or (token.end < result.end):
                     Log.error("Tokens must be ordered")
-                result.failures.extend(token.failures)
+                if result is not token:
+                    result.failures.extend(token.failures)
                 return result
 
             if isinstance(result, (list, tuple)):
-- 
2.43.0


From 6bd79f648fb6c3920d6b0260112fe85a102bf5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:47 +0000
Subject: [PATCH 27/80] fix: assigning to an existing name must keep the name

---
 mo_parsing/results.py | 46 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 0d343c6..b87de6a 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -93,23 +93,27 @@ class ParseResults(object):
         for i, tok in enumerate(self.tokens):
             if isinstance(tok, ParseResults):
                 if tok.name == k:
-                    self.tokens[i] = v
+                    self.tokens[i] = _renew(tok, v)
                     v = NO_RESULTS  # ERASE ALL OTHERS
                 elif isinstance(tok.type, Group):
                     continue
                 elif tok.name:
                     continue
-
-                tok.__setitem__(k, NO_RESULTS)  # ERASE ALL CHILDREN
+                else:
+                    tok._erase(k)  # ERASE ALL CHILDREN
 
         if v is not NO_RESULTS:
-            tokens = self.tokens
-            if isinstance(self, ForwardResults):
-                tokens = tokens[0].tokens
-            if isinstance(v, ParseResults):
-                tokens.append(Annotation(k, v.start, v.end, v.tokens))
-            else:
-                tokens.append(Annotation(k, -1, 0, enlist(v)))
+            start, end = (v.start, v.end) if isinstance(v, ParseResults) else (-1, 0)
+            self.tokens.append(Annotation(k, start, end, _token_list(v)))
+
+    def _erase(self, k):
+        # REMOVE ALL RESULTS NAMED k FROM THE OPEN SCOPE
+        for i, tok in enumerate(self.tokens):
+            if isinstance(tok, ParseResults):
+                if tok.name == k:
+                    self.tokens[i] = NO_RESULTS
+                elif not tok.name and not isinstance(tok.type, Group):
+                    tok._erase(k)
 
     def __contains__(self, k):
         return any((r.name) == k for r in self.tokens)
@@ -358,7 +362,10 @@ class ForwardResults(ParseResults):
         return self.tokens[0][item]
 
     def __setitem__(self, k, v):
-        self.tokens[0][k] = v
+        if self.tokens[0].name == k:
+            ParseResults.__setitem__(self, k, v)
+        else:
+            self.tokens[0][k] = v
 
     def __bool__(self):
         return self.tokens[0].__bool__()
@@ -373,6 +380,23 @@ class ForwardResults(ParseResults):
         yield from self.tokens[0].items()
 
 
+def _token_list(value):
+    return value.tokens if isinstance(value, ParseResults) else list(enlist(value))
+
+
+def _renew(token, value):
+    """
+    RETURN RESULT LIKE token (SAME NAME, SAME PLACE), BUT WITH NEW value
+    """
+    if value is NO_RESULTS:
+        return NO_RESULTS
+    if isinstance(token, Annotation):
+        return Annotation(token.name, token.start, token.end, _token_list(value))
+    return ParseResults(
+        token._type, token.start, token.end, _token_list(value), token.failures
+    )
+
+
 def _flatten(token):
     """
     FLATTEN SOME, LEAVING ANY IMPORTANT FEATURES (names or groups)
-- 
2.43.0


From a70b6375d9fa3ad9db52a09b47befc27cd5d4370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 28/80] fix: names directly under a forward declaration must be
 found

---
 mo_parsing/results.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index b87de6a..3037810 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -359,6 +359,8 @@ class ForwardResults(ParseResults):
         return self.tokens[0].type
 
     def __getitem__(self, item):
+        if is_text(item) and self.tokens[0].name == item:
+            return ParseResults.__getitem__(self, item)
         return self.tokens[0][item]
 
     def __setitem__(self, k, v):
@@ -377,7 +379,10 @@ class ForwardResults(ParseResults):
         yield from self.tokens[0]
 
     def items(self):
-        yield from self.tokens[0].items()
+        if self.tokens[0].name:
+            yield from ParseResults.items(self)
+        else:
+            yield from self.tokens[0].items()
 
 
 def _token_list(value):
-- 
2.43.0


From cfb4272efa545f759188917b2bb76da190ee7fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:04 +0000
Subject: [PATCH 29/80] fix: operators of infix_notation take operands only,
 and nothing is dropped from the tree

---
 mo_parsing/infix.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index d5c9874..a1f4880 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -13,6 +13,7 @@ from mo_parsing.enhancement import (
     Suppress,
     ZeroOrMore,
 )
+from mo_parsing.exceptions import ParseException
 from mo_parsing.expressions import MatchFirst, Or
 from mo_parsing.results import ParseResults, NO_PARSER
 from mo_parsing.tokens import (
@@ -254,6 +255,12 @@ def infix_notation(
         )
     ])
 
+    def is_operand(flat_tokens, i):
+        if i < 0 or len(flat_tokens) <= i:
+            return False
+        _, o = flat_tokens[i]
+        return o is base_expr or isinstance(o, tuple)
+
     def make_tree(tokens, loc, string):
         flat_tokens = list(tokens)
         num = len(op_list)
@@ -265,7 +272,11 @@ def infix_notation(
                     # PREFIX OPERATOR -3
                     todo = list(reversed(list(enumerate(flat_tokens[:-1]))))
                     for i, (r, o) in todo:
-                        if o == op:
+                        if (
+                            o == op
+                            and is_operand(flat_tokens, i + 1)
+                            and not is_operand(flat_tokens, i - 1)
+                        ):
                             tok = flat_tokens[i + 1][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -283,7 +294,11 @@ def infix_notation(
                     # SUFFIX OPERATOR 3!
                     todo = list(enumerate(flat_tokens[1:]))
                     for i, (r, o) in todo:
-                        if o == op:
+                        if (
+                            o == op
+                            and is_operand(flat_tokens, i)
+                            and not is_operand(flat_tokens, i + 2)
+                        ):
                             tok = flat_tokens[i][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -303,7 +318,11 @@ def infix_notation(
                     todo = list(reversed(todo))
 
                 for i, (r, o) in todo:
-                    if o == op:
+                    if (
+                        o == op
+                        and is_operand(flat_tokens, i)
+                        and is_operand(flat_tokens, i + 2)
+                    ):
                         if is_suppressed:
                             result = ParseResults(
                                 expr,
@@ -333,7 +352,9 @@ def infix_notation(
                 for i, (r0, o0) in todo:
                     if o0 == op[0]:
                         r1, o1 = flat_tokens[i + 3]
-                        if o1 == op[1]:
+                        if o1 == op[1] and all(
+                            is_operand(flat_tokens, i + j) for j in (0, 2, 4)
+                        ):
                             seq = [
                                 flat_tokens[i][0],
                                 flat_tokens[i + 2][0],
@@ -359,6 +380,10 @@ def infix_notation(
             flat_tokens[i : i + offset] = [(result, (expr,))]
             op_index = 0
 
+        if len(flat_tokens) > 1:
+            raise ParseException(
+                tokens.type, tokens.start, string, "operators without operands"
+            )
         result = flat_tokens[0][0]
         result.end = tokens.end
         result.failures = tokens.failures
-- 
2.43.0


From f1a3ea60f7bf6a9f6fb186d1ec50630133f41ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:14 +0000
Subject: [PATCH 30/80] fix: MatchAll takes a repetition as one element

---
 mo_parsing/expressions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index b723d1c..8ee6ce6 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -756,7 +756,8 @@ class MatchAll(ParseExpression):
         self.set_config(
             whitespace=whitespaces.CURRENT,
             min_match=[
-                e.parser_config.min_match if isinstance(e, Many) else 1 for e in exprs
+                min(e.parser_config.min_match, 1) if isinstance(e, Many) else 1
+                for e in exprs
             ],
             max_match=[
                 e.parser_config.max_match if isinstance(e, Many) else 1 for e in exprs
@@ -769,7 +770,7 @@ class MatchAll(ParseExpression):
         output = ParseExpression.streamline(self)
         output.set_config(
             min_match=[
-                e.parser_config.min_match if isinstance(e, Many) else 1
+                min(e.parser_config.min_match, 1) if isinstance(e, Many) else 1
                 for e in output.exprs
             ],
             max_match=[
-- 
2.43.0


From 6d67cc1c134326df4d1e81d9bedeb99b2122dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:15 +0000
Subject: [PATCH 31/80] fix: SkipTo must not match when fail_on is found first

---
 mo_parsing/enhancement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index ea3f909..cf11be7 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -469,12 +469,13 @@ class SkipTo(ParseEnhancement):
             skip_end = loc
             loc = before_end = self.parser_config.whitespace.skip(string, loc)
             if fail:
-                # break if fail_on expression matches
+                # not a match if fail_on expression is found before the target
                 try:
                     fail._parse(string, loc)
-                    break
-                except:
+                except ParseException:
                     pass
+                else:
+                    raise ParseException(self, start, string)
 
             if ignore:
                 # advance past ignore expressions
-- 
2.43.0


From e91f1b2c2d59872fae34fe7bf40a28587a51d736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:26 +0000
Subject: [PATCH 32/80] fix: SkipTo must end when its ignore expression
 consumes nothing

---
 mo_parsing/enhancement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index cf11be7..8300226 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -481,11 +481,13 @@ class SkipTo(ParseEnhancement):
                 # advance past ignore expressions
                 while 1:
                     try:
-                        loc = ignore._parse(string, loc).end
-                        skip_end = loc
-                        loc = before_end = self.parser_config.whitespace.skip(string, loc)
+                        ignore_end = ignore._parse(string, loc).end
                     except ParseException:
                         break
+                    if ignore_end <= loc:
+                        break  # NO PROGRESS
+                    skip_end = ignore_end
+                    loc = before_end = self.parser_config.whitespace.skip(string, ignore_end)
             try:
                 loc = self.expr._parse(string, loc, do_actions=False).end
             except ParseException:
-- 
2.43.0


From 5990b538a2c0b97ef830c1c6be64078c86dc6fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 33/80] fix: whitespace is skipped again after a look-behind in
 a sequence

---
 mo_parsing/expressions.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 8ee6ce6..7c74d86 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -259,15 +259,14 @@ class And(ParseExpression):
         # pass False as last arg to _parse for first element, since we already
         # pre-parsed the string as part of our And pre-parsing
         encountered_syntax_error = False
-        end = index = start
+        end = start
         acc = []
         failures = []
         for i, expr in enumerate(self.exprs):
-            if end > index:
-                if isinstance(expr, LookBehind):
-                    index = end
-                else:
-                    index = self.parser_config.whitespace.skip(string, end)
+            if end == start or isinstance(expr, LookBehind):
+                index = end
+            else:
+                index = self.parser_config.whitespace.skip(string, end)
             if isinstance(expr, And.SyntaxErrorGuard):
                 encountered_syntax_error = True
                 continue
-- 
2.43.0


From da0cad48ee5e1274cc5932b7c5a0affc744c2109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 34/80] fix: a nested sequence that begins with a look-behind
 is not flattened

---
 mo_parsing/expressions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 7c74d86..ee3c250 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -211,6 +211,7 @@ class And(ParseExpression):
             elif (
                 isinstance(f, And)
                 and f.parser_config.whitespace is self.parser_config.whitespace
+                and not isinstance(f.exprs[0], LookBehind)  # LOOKS BEHIND THE WHITESPACE
             ):
                 same = False
                 acc.extend(f.exprs)
-- 
2.43.0


From 33c251a36bf54b22ce8aa088f824cfe301513aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:03 +0000
Subject: [PATCH 35/80] fix: a repetition skips whitespace between matches
 only, and counts required matches that consume nothing

---
 mo_parsing/enhancement.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 8300226..5e14ef5 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -244,8 +244,8 @@ class Many(ParseEnhancement):
         count = 0
         failures = []
         try:
-            while end < len(string):
-                index = self.parser_config.whitespace.skip(string, end)
+            while count < max and (end < len(string) or count < min):
+                index = self.parser_config.whitespace.skip(string, end) if count else end
                 if stopper:
                     if stopper.match(string, index):
                         if min <= count:
@@ -254,13 +254,16 @@ class Many(ParseEnhancement):
                             raise ParseException(self, end, string, msg="found stopper too soon")
                 result = self.expr._parse(string, index, do_actions)
                 if result.end == result.start:
-                    break  # NO PROGRESS, ALL FURTHER MATCHES WILL BE THE SAME
+                    # NO PROGRESS, ALL FURTHER MATCHES WILL BE THE SAME
+                    if count < min:
+                        acc.append(result)
+                        failures.extend(result.failures)
+                        count = min
+                    break
                 end = result.end
                 acc.append(result)
                 failures.extend(result.failures)
                 count += 1
-                if count >= max:
-                    break
 
         except ParseException as cause:
             failures.append(cause)
-- 
2.43.0


From 0d3800e2274748cac99bf8de1a14d6530bbd087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 36/80] fix: the letters a literal expects must not be changed
 by case conversion

---
 mo_parsing/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index b26c766..17630b0 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -136,7 +136,7 @@ class Literal(Token):
         raise ParseException(self, start, string)
 
     def expecting(self):
-        return {self.parser_config.match.lower(): [self]}
+        return {self.parser_config.match: [self]}
 
     def _min_length(self):
         return len(self.parser_config.match)
@@ -220,7 +220,7 @@ class Keyword(Token):
         raise ParseException(self, start, string)
 
     def expecting(self):
-        return {self.parser_config.match.lower(): [self]}
+        return {self.parser_config.match: [self]}
 
     def _min_length(self):
         return len(self.parser_config.match)
-- 
2.43.0


From 183fb2d584cbdd10fedf2180df1ab9ad9afaceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:01 +0000
Subject: [PATCH 37/80] fix: the prefix known for a Regex must respect
 quantifiers, flags and character classes

---
 mo_parsing/regex.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 04dcd98..ef0a6a5 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -32,6 +32,7 @@ from mo_parsing.tokens import (
     AnyChar,
     LineStart,
     LineEnd,
+    Empty,
     Word,
     SingleCharLiteral,
 )
@@ -199,9 +200,10 @@ regex = Forward()
 line_start = Literal("^") / (lambda: LineStart())
 line_end = Literal("$") / (lambda: LineEnd())
 word_edge = Literal("\\b") / (lambda: NotAny(any_wordchar))
-simple_char = Word(
-    printables, exclude=r".^$*+{}[]\|()"
+simple_char = Char(
+    printables, exclude=r".^$*+?{}[]\|()"
 ) / (lambda t: Literal(t.value()))
+lazy = Literal("?") / (lambda: Empty())  # LAZY OR NOT, SAME EXPRESSIONS ARE EXPECTED
 esc_char = ("\\" + AnyChar()) / (lambda t: Literal(t.value()[1]))
 
 with Whitespace():
@@ -248,6 +250,7 @@ term = (
     | non_capture
     | named
     | group
+    | lazy
 )
 
 more = (term + Optional(repetition, NO_WHITESPACE)) / repeat
@@ -356,7 +359,7 @@ class Regex(ParseEnhancement):
         return output
 
     def expecting(self):
-        if _unknown_escape.search(self.regex.pattern):
+        if _unknown_escape.search(self.regex.pattern) or _char_class.search(self.regex.pattern):
             return {}
         return OrderedDict((k, [self]) for k in self.expr.expecting().keys())
 
@@ -372,8 +375,10 @@ class Regex(ParseEnhancement):
             return self.expr.__regex__()
 
 
-# ESCAPES THAT ARE PARSED AS JUST THE ESCAPED CHARACTER
-_unknown_escape = regex_compile(r"\\[^\W_sSwWdDnrt]")
+# ESCAPES THAT ARE PARSED AS JUST THE ESCAPED CHARACTER, OR EXTENSIONS PARSED AS PLAIN TEXT
+_unknown_escape = regex_compile(r"\\[^\W_sSwWdDnrt]|\(\?[^:=!<P]")
+# CLASSES THAT INCLUDE MORE THAN ASCII
+_char_class = regex_compile(r"\\[swd]")
 _plain_group = Group(None)
 
 export("mo_parsing.core", "regex_parameters", parameters)
-- 
2.43.0


From 6af3e4d1664745bb623e6d9639987f542b3c5e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 38/80] fix: streamlining a single repetition must not drop its
 stop expression

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 5e14ef5..de93dc4 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -287,7 +287,7 @@ class Many(ParseEnhancement):
         if self.parser_config.min_match == self.parser_config.max_match and not self.is_annotated():
             if self.parser_config.min_match == 0:
                 return Empty()
-            elif self.parser_config.min_match == 1:
+            elif self.parser_config.min_match == 1 and not self.parser_config.end:
                 return expr
 
         if self.expr is expr:
-- 
2.43.0


From 5f5421ac849eddb11e382d4483098ebeec6a7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 39/80] fix: MatchAll must look for missing optional elements
 where it ended, not after more whitespace

---
 mo_parsing/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index ee3c250..42fba8b 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -853,7 +853,8 @@ class MatchAll(ParseExpression):
         end = start
         for e in match_order:
             result = e._parse(string, end, do_actions)
-            end = self.parser_config.whitespace.skip(string, result.end)
+            if result.end > end:
+                end = self.parser_config.whitespace.skip(string, result.end)
             results.append(result)
 
         return ParseResults(self, results[0].start, results[-1].end, results, failures)
-- 
2.43.0


From 586f2ea577b080188a8e423b31b510ceb87202de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:47 +0000
Subject: [PATCH 40/80] fix: a copy of a forward declaration runs its actions
 once (C11)

---
 mo_parsing/enhancement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index de93dc4..e81a7b1 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -570,6 +570,7 @@ class Forward(ParserElement):
     def copy(self):
         output = ParserElement.copy(self)
         output.expr = self
+        output.parse_action = []  # self RUNS ITS OWN
         output._str = None
         output._in_regex = None
         output._in_expecting = None
@@ -609,6 +610,7 @@ class Forward(ParserElement):
         with whitespaces.NO_WHITESPACE:
             output = self.copy()
             output.expr = self.expr.leave_whitespace()
+            output.parse_action = self.parse_action[:]
             return output
 
     def streamline(self):
-- 
2.43.0


From 6fc74374ebda9d81147916f4f5885ee7961d0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:52 +0000
Subject: [PATCH 41/80] fix: whitespace with ignored expressions only can be
 defined (C19)

---
 mo_parsing/whitespaces.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/whitespaces.py b/mo_parsing/whitespaces.py
index 7815d90..d14039a 100644
--- a/mo_parsing/whitespaces.py
+++ b/mo_parsing/whitespaces.py
@@ -166,15 +166,12 @@ class Whitespace(ParserElement):
             return "*", ""
         self._in_regex = True
         try:
-            white = regex_range(self.white_chars)
+            white = self.white_chars and regex_range(self.white_chars) + "*"
             if not self.ignore_list:
-                if not white:
-                    return "*", ""
-                else:
-                    return "*", white + "*"
+                return "*", white
 
             ignored = "|".join(regex_iso(*i.__regex__(), "|") for i in self.ignore_list)
-            return "+", f"(?:{white}*(?:{ignored}))*{white}*"
+            return "+", f"(?:{white}(?:{ignored}))*{white}"
         finally:
             self._in_regex = False
 
-- 
2.43.0


From 516b632c43003355a1c58489e5543697cb0a5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:02 +0000
Subject: [PATCH 42/80] fix: a regular expression has no whitespace of its own,
 leading whitespace is skipped (C12)

---
 mo_parsing/regex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index ef0a6a5..bc9619f 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -290,6 +290,10 @@ class Regex(ParseEnhancement):
         output.regex = self.regex
         return output
 
+    @property
+    def whitespace(self):
+        return None  # ONE TOKEN
+
     def capture_groups(self):
         """
         ADD A SPECIAL PARSE ACTION TO PROVIDE THE NUMBERED (eg "1") AND
-- 
2.43.0


From 533c4779806ee0036c53859b49dc82c3e0f393b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:38 +0000
Subject: [PATCH 43/80] fix: capture groups are those of the match in the text,
 also with look-around (C26)

---
 mo_parsing/regex.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index bc9619f..686523a 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -300,26 +300,25 @@ class Regex(ParseEnhancement):
         NAMED GROUPS (eg (?P<name>...)
         """
 
-        def group_list(tokens):
+        def group_list(tokens, index, string):
             start, end = tokens.start, tokens.end
             # RE-MATCH  :(
-            sub_string = tokens.tokens[0]
-            found = tokens.type.regex.match(sub_string)
+            found = tokens.type.regex.match(string, start)
             lookup = dict(reversed(p) for p in found.re.groupindex.items())
             ann = []
-            pe = 0
+            pe = start
             for i, (s, e) in enumerate(found.regs[1:], start=1):
                 if s == -1:
                     continue  # NOT FOUND
-                g = sub_string[s:e]
+                g = string[s:e]
                 if pe <= s:
                     ann.append(g)
                 pe = e
-                ii = chr(i + ord("0"))
-                ann.append(Annotation(ii, s + start, e + start, [g]))
+                ii = str(i)
+                ann.append(Annotation(ii, s, e, [g]))
                 n = lookup.get(i)
                 if n:
-                    ann.append(Annotation(n, s + start, e + start, [g]))
+                    ann.append(Annotation(n, s, e, [g]))
             return ParseResults(_plain_group, start, end, ann, [])
 
         return self / group_list
-- 
2.43.0


From 5c7197eb100cec25916cc273b8e321e7ee8f60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:52 +0000
Subject: [PATCH 44/80] fix: as_list of a forward declared group is nested once
 (C15)

---
 mo_parsing/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 3037810..8a52208 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -316,7 +316,7 @@ class ParseResults(object):
                 for t in obj.tokens:
                     inner = internal(t, depth + 1)
                     output.extend(inner)
-                if isinstance(obj.type, Group):
+                if isinstance(obj.type, Group) and not isinstance(obj, ForwardResults):
                     return [output]
                 else:
                     return output
-- 
2.43.0


From 2a5a3bee81f2c06b73887359cc2135a1316ac41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:09 +0000
Subject: [PATCH 45/80] fix: a named group under a forward declaration is
 found, and names are listed as they are found (C16)

---
 mo_parsing/results.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 8a52208..19f9b77 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -59,7 +59,7 @@ class ParseResults(object):
                     continue
                 elif tok.name:
                     continue
-                elif isinstance(tok.type, Group):
+                elif isinstance(tok.type, Group) and not isinstance(tok, ForwardResults):
                     continue
                 yield from tok._get_item_by_name(name)
 
@@ -95,7 +95,7 @@ class ParseResults(object):
                 if tok.name == k:
                     self.tokens[i] = _renew(tok, v)
                     v = NO_RESULTS  # ERASE ALL OTHERS
-                elif isinstance(tok.type, Group):
+                elif isinstance(tok.type, Group) and not isinstance(tok, ForwardResults):
                     continue
                 elif tok.name:
                     continue
@@ -112,7 +112,9 @@ class ParseResults(object):
             if isinstance(tok, ParseResults):
                 if tok.name == k:
                     self.tokens[i] = NO_RESULTS
-                elif not tok.name and not isinstance(tok.type, Group):
+                elif tok.name:
+                    continue
+                elif not isinstance(tok.type, Group) or isinstance(tok, ForwardResults):
                     tok._erase(k)
 
     def __contains__(self, k):
@@ -214,9 +216,9 @@ class ParseResults(object):
                 if tok.name:
                     add(output, tok.name, [tok])
                     continue
-                if isinstance(tok.type, Group):
+                if isinstance(tok.type, Group) and not isinstance(tok, ForwardResults):
                     continue
-                for k, v in tok.items():
+                for k, v in ParseResults.items(tok):
                     add(output, k, v)
         yield from output.items()
 
@@ -379,10 +381,12 @@ class ForwardResults(ParseResults):
         yield from self.tokens[0]
 
     def items(self):
-        if self.tokens[0].name:
-            yield from ParseResults.items(self)
-        else:
-            yield from self.tokens[0].items()
+        inner = self.tokens[0]
+        if inner.name:
+            yield inner.name, [inner]
+        for k, v in inner.items():
+            if k != inner.name:
+                yield k, v
 
 
 def _token_list(value):
-- 
2.43.0


From cc1e7a2accbf1bf0b2699a707d21632c1f9953be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 46/80] fix: a forward declaration defined as a named forward,
 or one with actions, keeps the name and the actions (C24)

---
 mo_parsing/enhancement.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index e81a7b1..e17f873 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -548,6 +548,7 @@ class Forward(ParserElement):
 
     __slots__ = [
         "expr",
+        "origin",
         "used_by",
         "_str",
         "_in_regex",
@@ -558,6 +559,7 @@ class Forward(ParserElement):
     def __init__(self, expr=Null):
         ParserElement.__init__(self)
         self.expr = None
+        self.origin = None  # THE FORWARD THIS IS A COPY OF
         self.used_by = []
 
         self._str = None  # avoid recursion
@@ -570,6 +572,7 @@ class Forward(ParserElement):
     def copy(self):
         output = ParserElement.copy(self)
         output.expr = self
+        output.origin = self
         output.parse_action = []  # self RUNS ITS OWN
         output._str = None
         output._in_regex = None
@@ -588,10 +591,10 @@ class Forward(ParserElement):
 
     def __lshift__(self, other):
         self._str = ""
-        if is_forward(self.expr):
+        if self.origin is not None and self.expr is self.origin:
             return self.expr << other
 
-        while is_forward(other):
+        while is_forward(other) and not other.token_name and not other.parse_action:
             other = other.expr
         norm = whitespaces.CURRENT.normalize(other)
         self.expr = norm.streamline()
-- 
2.43.0


From 3a2bc397e14a757ad18c32fbee5e38db148b20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 47/80] fix: a name set on the result of a forward does not
 change the name it holds (C17)

---
 mo_parsing/results.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 19f9b77..2f90f10 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -361,31 +361,40 @@ class ForwardResults(ParseResults):
         return self.tokens[0].type
 
     def __getitem__(self, item):
-        if is_text(item) and self.tokens[0].name == item:
-            return ParseResults.__getitem__(self, item)
-        return self.tokens[0][item]
+        inner = self.tokens[0]
+        if not is_text(item):
+            return inner[item]
+        if inner.name != item:
+            value = inner[item]
+            if value is not NO_RESULTS:
+                return value
+        return ParseResults.__getitem__(self, item)
 
     def __setitem__(self, k, v):
-        if self.tokens[0].name == k:
-            ParseResults.__setitem__(self, k, v)
-        else:
-            self.tokens[0][k] = v
+        inner = self.tokens[0]
+        if not inner.name:
+            inner[k] = v
+            return
+        if inner.name != k and inner[k] is not NO_RESULTS:
+            inner[k] = v
+            v = NO_RESULTS
+        # NAMES THAT ARE NEW ARE KEPT BESIDE THE NAMED RESULT
+        ParseResults.__setitem__(self, k, v)
 
     def __bool__(self):
         return self.tokens[0].__bool__()
 
     def __iter__(self):
-        if len(self.tokens) != 1:
-            Log.error("not expected")
-
         yield from self.tokens[0]
 
     def items(self):
         inner = self.tokens[0]
+        names = {inner.name, ""}
         if inner.name:
-            yield inner.name, [inner]
+            yield from ParseResults.items(self)
+            names.update(t.name for t in self.tokens)
         for k, v in inner.items():
-            if k != inner.name:
+            if k not in names:
                 yield k, v
 
 
-- 
2.43.0


From 3c435a48708b0d00e6e52e996fdf7720671e8f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 48/80] fix: deleted names must not leave the shared NO_RESULTS
 in a result, where it could be changed (C17)

---
 mo_parsing/results.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 2f90f10..cf12183 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -87,6 +87,9 @@ class ParseResults(object):
         if isinstance(k, (slice, int)):
             Log.error("not supported")
 
+        if self is NO_RESULTS:
+            Log.error("not allowed to change what is found for missing names")
+
         if v is None:
             v = NO_RESULTS
 
@@ -111,7 +114,7 @@ class ParseResults(object):
         for i, tok in enumerate(self.tokens):
             if isinstance(tok, ParseResults):
                 if tok.name == k:
-                    self.tokens[i] = NO_RESULTS
+                    self.tokens[i] = _renew(tok, NO_RESULTS)
                 elif tok.name:
                     continue
                 elif not isinstance(tok.type, Group) or isinstance(tok, ForwardResults):
@@ -407,7 +410,7 @@ def _renew(token, value):
     RETURN RESULT LIKE token (SAME NAME, SAME PLACE), BUT WITH NEW value
     """
     if value is NO_RESULTS:
-        return NO_RESULTS
+        return ParseResults(NO_PARSER, -1, 0, [], [])
     if isinstance(token, Annotation):
         return Annotation(token.name, token.start, token.end, _token_list(value))
     return ParseResults(
-- 
2.43.0


From 5ec40968010a4c4188b0220ab7b985f997759cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 49/80] fix: a name set on the result of a forward stays beside
 the result it was set beside (C17)

---
 mo_parsing/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index cf12183..1eeb854 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -375,7 +375,7 @@ class ForwardResults(ParseResults):
 
     def __setitem__(self, k, v):
         inner = self.tokens[0]
-        if not inner.name:
+        if not inner.name and len(self.tokens) == 1:
             inner[k] = v
             return
         if inner.name != k and inner[k] is not NO_RESULTS:
-- 
2.43.0


From 3d2e9f142b35eb5b69e3f568a3929f582ca5de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:55 +0000
Subject: [PATCH 50/80] fix: names beside the result of a forward are listed
 (C16)

---
 mo_parsing/results.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 1eeb854..37f0825 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -392,10 +392,11 @@ class ForwardResults(ParseResults):
 
     def items(self):
         inner = self.tokens[0]
-        names = {inner.name, ""}
-        if inner.name:
-            yield from ParseResults.items(self)
-            names.update(t.name for t in self.tokens)
+        names = set()
+        for tok in self.tokens:
+            if tok.name and tok.name not in names:
+                names.add(tok.name)
+                yield tok.name, [tok]
         for k, v in inner.items():
             if k not in names:
                 yield k, v
-- 
2.43.0


From 2ad37056ec72dded2a387976a289a83d1bd645c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 51/80] fix: failures with a message are equally good, in
 either order (C18)

---
 mo_parsing/exceptions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/exceptions.py b/mo_parsing/exceptions.py
index 567c5f2..a5842f0 100644
--- a/mo_parsing/exceptions.py
+++ b/mo_parsing/exceptions.py
@@ -201,7 +201,10 @@ def compare_causes(a, b):
             elif a.expr.parser_name:
                 return -1
             elif b._msg:
-                return 1
+                if a._msg:
+                    return 0
+                else:
+                    return 1
             elif a._msg:
                 return -1
             else:
-- 
2.43.0


From a00c21eba378255de702037848824be13caf54e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 52/80] fix: a failed look-behind is reported in the whole text
 (C18)

---
 mo_parsing/enhancement.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index e17f873..bdb44b8 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -906,17 +906,16 @@ class PrecededBy(LookAhead):
         else:
             # retreat specified a maximum lookbehind window, iterate
             instring_slice = string[:start]
-            last_cause = ParseException(self, start, string)
 
             for offset in range(self.parser_config.retreat, start + 1):
                 try:
                     ret = self.expr._parse(instring_slice, start - offset)
                     if ret.end == start:
                         break
-                except ParseException as cause:
-                    last_cause = cause
+                except ParseException:
+                    pass
             else:
-                raise last_cause
+                raise ParseException(self, start, string)
         # return empty list of tokens, but preserve any defined results names
 
         ret.__class__ = Annotation
-- 
2.43.0


From c5109bc954f6227acfad76e930b63776e5d0b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 53/80] fix: a sequence ending in ... is not changed by the
 sequence it is used in (C21)

---
 mo_parsing/expressions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 42fba8b..d3379a4 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -188,22 +188,22 @@ class And(ParseExpression):
             for e in exprs[:-1]
         ):
             same = False
-            for i, e in enumerate(exprs[:-1]):
+            exprs = list(exprs)
+            for i, e in reversed(list(enumerate(exprs[:-1]))):
                 if (
                     isinstance(e, ParseExpression)
                     and e.exprs
                     and isinstance(e.exprs[-1], _PendingSkip)
                 ):
                     ee = e.exprs[-1] + exprs[i + 1]
-                    e.exprs[-1] = ee
+                    e = e.copy()
+                    e.exprs = e.exprs[:-1] + [ee]
                     e.streamlined = False
-                    exprs[i + 1] = None
+                    exprs[i : i + 2] = [e]
 
         # streamline INDIVIDUAL EXPRESSIONS
         acc = []
         for e in exprs:
-            if e is None:
-                continue
             f = e.streamline()
             same = same and f is e
             if f.is_annotated():
-- 
2.43.0


From 3b0f1087dea6eb64f83b0dba684023160cf468f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 54/80] fix: a longest choice of one sequence can be
 streamlined (C22)

---
 mo_parsing/expressions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index d3379a4..f486467 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -368,11 +368,9 @@ class Or(ParseExpression):
             return output
         if not output.is_annotated():
             if len(output.exprs) == 0:
-                output = Empty()
+                return Empty()
             if len(output.exprs) == 1:
-                output = output.exprs[0]
-                if not isinstance(output, ParseExpression):
-                    return output
+                return output.exprs[0]
 
         output.alternate = faster(output.exprs)
 
-- 
2.43.0


From 4460a4b1122fe482058995831c89a0c186e2ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 55/80] fix: streamlining keeps the actions and name of a
 negative look-ahead that always succeeds (C22)

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index bdb44b8..f09e33d 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -172,7 +172,7 @@ class NotAny(LookAhead):
         output = ParseEnhancement.streamline(self)
         if isinstance(output, Empty):
             return NoMatch()
-        if isinstance(output.expr, NoMatch):
+        if isinstance(output.expr, NoMatch) and not output.is_annotated():
             return Empty()
         if isinstance(output.expr, Empty):
             return NoMatch()
-- 
2.43.0


From 7f7ee306d2abda719e7820eb8fdb3976842b5ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 56/80] fix: a prefix operator is one by its place in the text,
 not by what is left of the tokens (C23)

---
 mo_parsing/infix.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index a1f4880..0e9eebc 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -229,24 +229,27 @@ def infix_notation(
             ))
     op_list = tuple(op_list)
 
-    def record_op(op):
+    def record_op(op, role=None):
+        # role IS THE PLACE OF AN OPERATOR, THE SAME op CAN BE PREFIX AND INFIX
         def output(tokens):
-            return ParseResults(NO_PARSER, tokens.start, tokens.end, [(tokens, op)], [])
+            return ParseResults(
+                NO_PARSER, tokens.start, tokens.end, [(tokens, op, role)], []
+            )
 
         return output
 
     prefix_ops = MatchFirst([
-        op / record_op(op)
+        op / record_op(op, "prefix")
         for expr, op, is_suppressed, arity, assoc, pa in op_list
         if arity == 1 and assoc == RIGHT_ASSOC
     ])
     suffix_ops = MatchFirst([
-        op / record_op(op)
+        op / record_op(op, "suffix")
         for expr, op, is_suppressed, arity, assoc, pa in op_list
         if arity == 1 and assoc == LEFT_ASSOC
     ])
     ops = Or([
-        op_part / record_op(op_part)
+        op_part / record_op(op_part, "infix")
         for op_part in set(
             op_part
             for expr, op, is_suppressed, arity, assoc, pa in op_list
@@ -258,8 +261,8 @@ def infix_notation(
     def is_operand(flat_tokens, i):
         if i < 0 or len(flat_tokens) <= i:
             return False
-        _, o = flat_tokens[i]
-        return o is base_expr or isinstance(o, tuple)
+        _, _, role = flat_tokens[i]
+        return role is None
 
     def make_tree(tokens, loc, string):
         flat_tokens = list(tokens)
@@ -271,11 +274,11 @@ def infix_notation(
                 if assoc == RIGHT_ASSOC:
                     # PREFIX OPERATOR -3
                     todo = list(reversed(list(enumerate(flat_tokens[:-1]))))
-                    for i, (r, o) in todo:
+                    for i, (r, o, role) in todo:
                         if (
                             o == op
+                            and role == "prefix"
                             and is_operand(flat_tokens, i + 1)
-                            and not is_operand(flat_tokens, i - 1)
                         ):
                             tok = flat_tokens[i + 1][0]
                             if is_suppressed:
@@ -293,11 +296,11 @@ def infix_notation(
                 else:
                     # SUFFIX OPERATOR 3!
                     todo = list(enumerate(flat_tokens[1:]))
-                    for i, (r, o) in todo:
+                    for i, (r, o, role) in todo:
                         if (
                             o == op
+                            and role == "suffix"
                             and is_operand(flat_tokens, i)
-                            and not is_operand(flat_tokens, i + 2)
                         ):
                             tok = flat_tokens[i][0]
                             if is_suppressed:
@@ -317,9 +320,10 @@ def infix_notation(
                 if assoc == RIGHT_ASSOC:
                     todo = list(reversed(todo))
 
-                for i, (r, o) in todo:
+                for i, (r, o, role) in todo:
                     if (
                         o == op
+                        and role == "infix"
                         and is_operand(flat_tokens, i)
                         and is_operand(flat_tokens, i + 2)
                     ):
@@ -349,9 +353,9 @@ def infix_notation(
                 if assoc == RIGHT_ASSOC:
                     todo = list(reversed(todo))
 
-                for i, (r0, o0) in todo:
+                for i, (r0, o0, _) in todo:
                     if o0 == op[0]:
-                        r1, o1 = flat_tokens[i + 3]
+                        r1, o1, _ = flat_tokens[i + 3]
                         if o1 == op[1] and all(
                             is_operand(flat_tokens, i + j) for j in (0, 2, 4)
                         ):
@@ -377,7 +381,7 @@ def infix_notation(
             for p in parse_actions:
                 result = p(result, -1, string)
             offset = (0, 2, 3, 5)[arity]
-            flat_tokens[i : i + offset] = [(result, (expr,))]
+            flat_tokens[i : i + offset] = [(result, expr, None)]
             op_index = 0
 
         if len(flat_tokens) > 1:
-- 
2.43.0


From 75415d26981916de0b602d3430fab9da17ed159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 57/80] fix: a forward declaration knows the minimum length of
 its definition (C24)

---
 mo_parsing/enhancement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index f09e33d..a5e8ef7 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -642,12 +642,12 @@ class Forward(ParserElement):
             self._in_expecting = False
 
     def min_length(self):
-        if self.min_length_cache is None and self.expr:
+        if self.min_length_cache < 0 and self.expr:
             self.min_length_cache = 0  # BREAK CYCLE
             try:
                 return self.expr.min_length()
             finally:
-                self.min_length_cache = None
+                self.min_length_cache = -1
         return 0
 
     @property
-- 
2.43.0


From 23f95a0c63e64c708b495f446fa15124d617b223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 58/80] fix: a match-all consumes the text of all its elements
 (C24)

---
 mo_parsing/expressions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index f486467..04c74ac 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -779,8 +779,7 @@ class MatchAll(ParseExpression):
         return output
 
     def _min_length(self):
-        # TODO: MAY BE TOO CONSERVATIVE, WE MAY BE ABLE TO PROVE self CAN CONSUME A CHARACTER
-        return min(e.min_length() for e in self.exprs)
+        return sum(e.min_length() for e in self.exprs)
 
     @property
     def whitespace(self):
-- 
2.43.0


From 43eeff164f7ce6069b22ec47d16851270d7aedc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 59/80] fix: a pattern that is parsed in part has no known
 prefix nor length, and any plain character can be in a pattern (C03 C26)

---
 mo_parsing/regex.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 686523a..97ac94a 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -200,9 +200,7 @@ regex = Forward()
 line_start = Literal("^") / (lambda: LineStart())
 line_end = Literal("$") / (lambda: LineEnd())
 word_edge = Literal("\\b") / (lambda: NotAny(any_wordchar))
-simple_char = Char(
-    printables, exclude=r".^$*+?{}[]\|()"
-) / (lambda t: Literal(t.value()))
+simple_char = Char(exclude=r".^$*+?{}[]\|()") / (lambda t: Literal(t.value()))
 lazy = Literal("?") / (lambda: Empty())  # LAZY OR NOT, SAME EXPRESSIONS ARE EXPECTED
 esc_char = ("\\" + AnyChar()) / (lambda t: Literal(t.value()[1]))
 
@@ -272,7 +270,7 @@ class Regex(ParseEnhancement):
     Converter to concatenate all matching tokens to a single string.
     """
 
-    __slots__ = ["regex"]
+    __slots__ = ["regex", "parsed_all"]
 
     def __init__(self, pattern):
         """
@@ -284,10 +282,12 @@ class Regex(ParseEnhancement):
         # WE ASSUME IT IS SAFE TO ASSIGN regex (NO SERIOUS BACKTRACKING PROBLEMS)
         self.streamlined = True
         self.regex = regex_compile(pattern)
+        self.parsed_all = parsed.end == len(pattern)
 
     def copy(self):
         output = ParseEnhancement.copy(self)
         output.regex = self.regex
+        output.parsed_all = self.parsed_all
         return output
 
     @property
@@ -362,12 +362,16 @@ class Regex(ParseEnhancement):
         return output
 
     def expecting(self):
-        if _unknown_escape.search(self.regex.pattern) or _char_class.search(self.regex.pattern):
+        if (
+            not self.parsed_all
+            or _unknown_escape.search(self.regex.pattern)
+            or _char_class.search(self.regex.pattern)
+        ):
             return {}
         return OrderedDict((k, [self]) for k in self.expr.expecting().keys())
 
     def min_length(self):
-        if _unknown_escape.search(self.regex.pattern):
+        if not self.parsed_all or _unknown_escape.search(self.regex.pattern):
             return 0
         return self.expr.min_length()
 
-- 
2.43.0


From 7bb5d8ddbaa80b7f8350c3839429ef2ea7611bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:50 +0000
Subject: [PATCH 60/80] fix: keywords of one_of are tried from the longest too
 (C25)

---
 mo_parsing/infix.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index 0e9eebc..b8837c3 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -88,22 +88,20 @@ def one_of(strs, caseless=False, as_keyword=False):
     if not symbols:
         return NoMatch()
 
-    if not as_keyword:
-        # if not producing keywords, need to reorder to take care to avoid masking
-        # longer choices with shorter ones
-        i = 0
-        while i < len(symbols) - 1:
-            cur = symbols[i]
-            for j, other in enumerate(symbols[i + 1 :]):
-                if isequal(other, cur):
-                    del symbols[i + j + 1]
-                    break
-                elif masks(cur, other):
-                    del symbols[i + j + 1]
-                    symbols.insert(i, other)
-                    break
-            else:
-                i += 1
+    # reorder to take care to avoid masking longer choices with shorter ones
+    i = 0
+    while i < len(symbols) - 1:
+        cur = symbols[i]
+        for j, other in enumerate(symbols[i + 1 :]):
+            if isequal(other, cur):
+                del symbols[i + j + 1]
+                break
+            elif masks(cur, other):
+                del symbols[i + j + 1]
+                symbols.insert(i, other)
+                break
+        else:
+            i += 1
 
     if caseless or as_keyword:
         return MatchFirst(parseElementClass(sym) for sym in symbols).streamline()
-- 
2.43.0


From b759e15d45180ba48acac19dd5b684d172d16178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 61/80] fix: Combine runs the actions and conditions of the
 expression it combines (C27)

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index a5e8ef7..45b4155 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -731,7 +731,7 @@ class Combine(TokenConverter):
 
     def parse_impl(self, string, start, do_actions=True):
         try:
-            result = self.expr.parse_impl(string, start, do_actions=do_actions)
+            result = self.expr._parse(string, start, do_actions)
             return ParseResults(
                 self, start, result.end, [result.as_string(sep=self.parser_config.separator)], result.failures,
             )
-- 
2.43.0


From a92f231f08a7eec26994f0cc26ab1569a0072869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 62/80] fix: as_string converts tokens that are not text (C15
 C27)

---
 mo_parsing/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 37f0825..0472805 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -288,7 +288,7 @@ class ParseResults(object):
                 for s in t._asStringList():
                     yield s
             else:
-                yield t
+                yield text(t)
 
     def as_string(self, sep=""):
         return sep.join(self._asStringList())
-- 
2.43.0


From 79919361d7ba088498fde82f257319c1220dedf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 63/80] fix: suppressing a group drops it, not just its tokens
 (C27)

---
 mo_parsing/enhancement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 45b4155..6ccea5b 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -774,6 +774,9 @@ class Group(TokenConverter):
         ParserElement.__init__(self)
         self.expr = whitespaces.CURRENT.normalize(expr)
 
+    def suppress(self):
+        return Suppress(self)  # NO EMPTY GROUP IS LEFT
+
     def is_annotated(self):
         return True
 
-- 
2.43.0


From 8000ab5408daa803d7e687554865965df822218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 64/80] fix: suppressing a forward declaration drops the group
 it is defined as (C27)

---
 mo_parsing/enhancement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 6ccea5b..34c7d66 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -609,6 +609,9 @@ class Forward(ParserElement):
         self.parse_action.append(wrap_parse_action(action))
         return self
 
+    def suppress(self):
+        return Suppress(self)  # IT CAN BE DEFINED AS A GROUP
+
     def leave_whitespace(self):
         with whitespaces.NO_WHITESPACE:
             output = self.copy()
-- 
2.43.0


From f96ebc74c95ccadc80debb40365161966a6d217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:23 +0000
Subject: [PATCH 65/80] fix: streamlining an empty choice must not make it
 match, nor drop the annotations of an empty sequence

---
 mo_parsing/expressions.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 04c74ac..57d5d87 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -14,7 +14,7 @@ from mo_parsing.exceptions import (
     ParseSyntaxException,
 )
 from mo_parsing.results import ParseResults
-from mo_parsing.tokens import Empty
+from mo_parsing.tokens import Empty, NoMatch
 from mo_parsing.utils import (
     empty_tuple,
     is_forward,
@@ -95,6 +95,8 @@ class ParseExpression(ParserElement):
         # but only if there are no parse actions or resultsNames on the nested And's
         # (likewise for Or's and MatchFirst's)
         if not self.is_annotated() and not self.exprs:
+            if isinstance(self, (Or, MatchFirst)):
+                return NoMatch()  # NO ALTERNATIVE CAN MATCH
             return Empty(self.parser_name)
 
         acc = []
@@ -173,7 +175,7 @@ class And(ParseExpression):
     def streamline(self):
         if self.streamlined:
             return self
-        if not self.exprs:
+        if not self.exprs and not self.is_annotated():
             return Empty(self.parser_name)
         if len(self.exprs) == 1 and not self.is_annotated():
             return self.exprs[0].streamline()
@@ -356,7 +358,7 @@ class Or(ParseExpression):
         return output
 
     def _min_length(self):
-        return min(e.min_length() for e in self.exprs)
+        return min((e.min_length() for e in self.exprs), default=0)
 
     def streamline(self):
         if self.streamlined:
@@ -368,7 +370,7 @@ class Or(ParseExpression):
             return output
         if not output.is_annotated():
             if len(output.exprs) == 0:
-                return Empty()
+                return NoMatch()
             if len(output.exprs) == 1:
                 return output.exprs[0]
 
@@ -528,11 +530,11 @@ class MatchFirst(ParseExpression):
 
         output = ParseExpression.streamline(self)
 
-        if isinstance(output, Empty):
+        if not isinstance(output, ParseExpression):
             return output
         if not output.is_annotated():
             if len(output.exprs) == 0:
-                return Empty()
+                return NoMatch()
             if len(output.exprs) == 1:
                 return output.exprs[0]
 
@@ -766,6 +768,8 @@ class MatchAll(ParseExpression):
         if self.streamlined:
             return self
         output = ParseExpression.streamline(self)
+        if not isinstance(output, ParseExpression):
+            return output
         output.set_config(
             min_match=[
                 min(e.parser_config.min_match, 1) if isinstance(e, Many) else 1
-- 
2.43.0


From b8a664cdfc4b65a6afebfad777c73df684c7d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 66/80] fix: streamlining must keep the annotations and the
 stop of a repetition of nothing, and the pattern of a negation

---
 mo_parsing/enhancement.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 34c7d66..e6b058a 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -142,6 +142,9 @@ class NotAny(LookAhead):
 
     def __init__(self, expr):
         super(NotAny, self).__init__(expr)
+        self._set_regex()
+
+    def _set_regex(self):
         try:
             prec, pattern = self.expr.__regex__()
             self.regex = regex_compile(f"(?!{pattern})")
@@ -176,6 +179,8 @@ class NotAny(LookAhead):
             return Empty()
         if isinstance(output.expr, Empty):
             return NoMatch()
+        if output is not self:
+            output._set_regex()
         return output
 
     def expecting(self):
@@ -293,7 +298,12 @@ class Many(ParseEnhancement):
         if self.expr is expr:
             self.streamlined = True
             return self
-        if expr.is_annotated() or not isinstance(expr, Empty):
+        if (
+            expr.is_annotated()
+            or not isinstance(expr, Empty)
+            or self.is_annotated()
+            or self.parser_config.end
+        ):
             output = self.copy()
             output.expr = expr
             output.streamlined = True
-- 
2.43.0


From e1d12526a859d1e46c3114fc13e725a6fa190f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:20 +0000
Subject: [PATCH 67/80] fix: an expression that was simplified is simplified
 again when parsed again (C21)

---
 mo_parsing/expressions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 57d5d87..317a076 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -119,6 +119,7 @@ class ParseExpression(ParserElement):
         if same:
             return self
 
+        self.streamlined = False  # THE COPY IS, THIS IS NOT
         output = self.copy()
         output.exprs = acc
         output.streamlined = True
-- 
2.43.0


From d814c60ad42a0bf753479483e6632bc223ed25ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:12 +0000
Subject: [PATCH 68/80] fix: C14 the variables of a replacement text alternate
 with its text

---
 mo_parsing/core.py  | 7 +++----
 mo_parsing/regex.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 4f460b4..433dd2f 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -531,10 +531,9 @@ class ParserElement(object):
 
         def replacer(tokens):
             acc = []
-            for s, n in zip(parts, parts[1:]):
-                acc.append(s)
-                acc.append(text(tokens[n]))
-            acc.append(parts[-1])
+            for i, part in enumerate(parts):
+                # TEXT AND NAMES ALTERNATE
+                acc.append(text(tokens[part.value()]) if i % 2 else part)
             return "".join(acc)
 
         return self / replacer
diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 97ac94a..1c19510 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -260,7 +260,7 @@ regex << (
 regex = regex.finalize()
 
 parameters = (
-    "\\" + Char(alphanums)("name") | "\\g<" + Word(alphas, alphanums)("name") + ">"
+    "\\g<" + Word(alphanums + "_")("name") + ">" | "\\" + Char(alphanums)("name")
 ) / (lambda t: t["name"])
 NO_WHITESPACE.release()
 
-- 
2.43.0


From 081472e70b484c85215f2315fa4cfb1edad55008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:24 +0000
Subject: [PATCH 69/80] fix: C26 a substitution uses the match it was made for

---
 mo_parsing/regex.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 1c19510..9f9f920 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -327,16 +327,15 @@ class Regex(ParseEnhancement):
         # MIMIC re.sub
         if is_text(replacement):
             # USE PYTHON REGEX
-            def pa(tokens):
-                return tokens.type.regex.sub(replacement, tokens[0])
+            def pa(tokens, index, string):
+                return tokens.type.regex.match(string, index).expand(replacement)
 
             output = self / pa
             return output
         else:
             # A FUNCTION
-            def pf(tokens):
-                regex_result = tokens.type.regex.match(tokens.tokens[0])
-                return replacement(regex_result)
+            def pf(tokens, index, string):
+                return replacement(tokens.type.regex.match(string, index))
 
             return self / pf
 
-- 
2.43.0


From 5b02312ad76550f33cff3892cbf2934e2f11c2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:37 +0000
Subject: [PATCH 70/80] fix: C24 a forward defined as one that is not defined
 yet

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index e6b058a..61972f4 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -604,7 +604,7 @@ class Forward(ParserElement):
         if self.origin is not None and self.expr is self.origin:
             return self.expr << other
 
-        while is_forward(other) and not other.token_name and not other.parse_action:
+        while is_forward(other) and other.expr and not other.token_name and not other.parse_action:
             other = other.expr
         norm = whitespaces.CURRENT.normalize(other)
         self.expr = norm.streamline()
-- 
2.43.0


From fec51ed00f9ca0af64addab2629a0a4f3e9ca499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:54 +0000
Subject: [PATCH 71/80] fix: a shortlisted alternative knows the failures of
 those tried before it (C18)

---
 mo_parsing/expressions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 317a076..1466c97 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -726,9 +726,13 @@ class Fast(ParserElement):
             causes = []
             for e in exprs:
                 try:
-                    return e._parse(string, start, do_actions)
+                    result = e._parse(string, start, do_actions)
                 except ParseException as cause:
                     causes.append(cause)
+                else:
+                    if causes:
+                        result.failures = causes + result.failures
+                    return result
 
             raise ParseException(self, start, string, cause=causes)
         else:
-- 
2.43.0


From 2c24e721866d4564675fc1098c922a2e75c22ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:29 +0000
Subject: [PATCH 72/80] fix: C27 an entry that shows nothing names nothing

---
 mo_parsing/enhancement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 61972f4..ca3d473 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -834,6 +834,8 @@ def _dict_post_parse(tokens, loc, string):
                 new_tok = Annotation(tok, a.start, a.end, [])
             else:
                 kv = list(tok)
+                if not kv:
+                    continue
                 key = kv[0]
                 value = kv[1:]
                 new_tok = Annotation(text(key), tok.start, tok.end, value)
-- 
2.43.0


From 9e0bd3723dbc37eac6589a0b98a981513a69207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:16 +0000
Subject: [PATCH 73/80] fix: a wrapper keeps the conditions, actions and name
 of the empty element it wraps

---
 mo_parsing/enhancement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index ca3d473..47fcf8c 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -76,7 +76,7 @@ class ParseEnhancement(ParserElement):
             self.streamlined = True
             return self
 
-        if not expr or isinstance(expr, Empty) and not self.is_annotated():
+        if not expr or isinstance(expr, Empty) and not expr.is_annotated() and not self.is_annotated():
             return Empty()
 
         output = self.copy()
@@ -177,7 +177,7 @@ class NotAny(LookAhead):
             return NoMatch()
         if isinstance(output.expr, NoMatch) and not output.is_annotated():
             return Empty()
-        if isinstance(output.expr, Empty):
+        if isinstance(output.expr, Empty) and not output.expr.is_annotated():
             return NoMatch()
         if output is not self:
             output._set_regex()
-- 
2.43.0


From de5df5a9f251e4a1a0a8d7b5362c626c855a60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:36 +0000
Subject: [PATCH 74/80] fix: a set left empty by its exclusions matches no
 character

---
 mo_parsing/tokens.py | 3 ++-
 mo_parsing/utils.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 17630b0..621b0dc 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -438,12 +438,13 @@ class Char(Token):
         Represent one character in a given include
         """
         Token.__init__(self)
+        any_other = not include
         include = set(include) if include else set()
         exclude = set(exclude) if exclude else set()
         include = "".join(sorted(include - exclude))
         exclude = "".join(sorted(exclude))
 
-        if not include:
+        if any_other:
             regex = regex_range(exclude, exclude=True)
         else:
             regex = regex_range(include)
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 743e547..45c57e0 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -96,7 +96,8 @@ def regex_range(s, exclude=False):
         return _escapes.get(s, s)
 
     if not s:
-        return ""
+        # nothing is in the empty set, everything is outside of it
+        return "." if exclude else "(?!)"
     if len(s) == 1:
         if exclude:
             return f"[^{esc(s)}]"
-- 
2.43.0


From cbf307a8c1086f8c16cfb0057131c24a881296e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:49 +0000
Subject: [PATCH 75/80] fix: the pattern of a repetition binds like a sequence,
 so that it can be repeated

---
 mo_parsing/enhancement.py | 2 +-
 mo_parsing/tokens.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 47fcf8c..25d7c0c 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -333,7 +333,7 @@ class Many(ParseEnhancement):
         if end:
             return "+", regex + suffix + end
         else:
-            return "*", regex + suffix
+            return "+", regex + suffix
 
     def __call__(self, name):
         if not name:
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 621b0dc..26bbeda 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -545,7 +545,7 @@ class CharsNotIn(Token):
         return self
 
     def __regex__(self):
-        return "*", self.parser_config.regex.pattern
+        return "+", self.parser_config.regex.pattern
 
     def __str__(self):
         return self.parser_config.regex.pattern
-- 
2.43.0


From 79c3d8399c91dbeb3c73b3265be9a051b4280993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:04 +0000
Subject: [PATCH 76/80] fix: the pattern of a choice keeps its empty
 alternatives, the empty pattern

---
 mo_parsing/expressions.py | 12 ++----------
 mo_parsing/tokens.py      |  2 +-
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 1466c97..66b724d 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -469,11 +469,7 @@ class Or(ParseExpression):
     def __regex__(self):
         return (
             "|",
-            "|".join(
-                regex_iso(*e.__regex__(), "|")
-                for e in self.exprs
-                if not isinstance(e, Empty)
-            ),
+            "|".join(regex_iso(*e.__regex__(), "|") for e in self.exprs),
         )
 
     def __str__(self):
@@ -562,11 +558,7 @@ class MatchFirst(ParseExpression):
     def __regex__(self):
         return (
             "|",
-            "|".join(
-                regex_iso(*e.__regex__(), "|")
-                for e in self.exprs
-                if not isinstance(e, Empty)
-            ),
+            "|".join(regex_iso(*e.__regex__(), "|") for e in self.exprs),
         )
 
     def __str__(self):
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 26bbeda..4139f9b 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -57,7 +57,7 @@ class Empty(Token):
         return self
 
     def __regex__(self):
-        return self.whitespace.__regex__()
+        return "|", ""
 
     def __str__(self):
         return self.parser_name or "Empty"
-- 
2.43.0


From 5eb41c89343e02a6449ed3287f97afa2bac3eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:13 +0000
Subject: [PATCH 77/80] fix: the pattern of a character between word boundaries
 can be repeated

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 4139f9b..37b51da 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -450,7 +450,7 @@ class Char(Token):
             regex = regex_range(include)
 
         if as_keyword:
-            regex = r"\b%s\b" % regex
+            regex = r"(?:\b%s\b)" % regex
         self.set_config(regex=regex_compile(regex), include=include, exclude=exclude)
 
     def parse_impl(self, string, start, do_actions=True):
-- 
2.43.0


From 5ad72cd27df6ce8eedafe4ddf97b0a3cfd626453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:25 +0000
Subject: [PATCH 78/80] fix: looking behind at the end of a line or of the text
 missed the one that is a line break

---
 mo_parsing/enhancement.py | 8 ++++++--
 mo_parsing/tokens.py      | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 25d7c0c..35779c1 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -21,8 +21,8 @@ from mo_parsing.utils import (
 from mo_parsing.utils import MAX_INT, is_forward
 
 Word: object
-(Token, NoMatch, Literal, Keyword, Word, CharsNotIn, StringEnd, Empty, Char,) = expect(
-    "Token", "NoMatch", "Literal", "Keyword", "Word", "CharsNotIn", "StringEnd", "Empty", "Char",
+(Token, NoMatch, Literal, Keyword, Word, CharsNotIn, LineEnd, StringEnd, Empty, Char,) = expect(
+    "Token", "NoMatch", "Literal", "Keyword", "Word", "CharsNotIn", "LineEnd", "StringEnd", "Empty", "Char",
 )
 
 _get = object.__getattribute__
@@ -908,6 +908,8 @@ class PrecededBy(LookAhead):
             self.set_config(retreat=expr.min_length(), exact=True)
         elif isinstance(expr, (Word, CharsNotIn)):
             self.set_config(retreat=expr.min_length(), exact=False)
+        elif isinstance(expr, (LineEnd, StringEnd)):
+            self.set_config(retreat=0, exact=False)  # MAY TAKE THE LINE BREAK
         elif expr.__class__.zero_length:
             self.set_config(retreat=0, exact=True)
         else:
@@ -924,6 +926,8 @@ class PrecededBy(LookAhead):
         else:
             # retreat specified a maximum lookbehind window, iterate
             instring_slice = string[:start]
+            if isinstance(self.expr, (LineEnd, StringEnd)):
+                instring_slice = string  # THE CUT IS NOT THE END
 
             for offset in range(self.parser_config.retreat, start + 1):
                 try:
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 37b51da..2b9faf9 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -844,6 +844,7 @@ export("mo_parsing.enhancement", Literal)
 export("mo_parsing.enhancement", Keyword)
 export("mo_parsing.enhancement", Word)
 export("mo_parsing.enhancement", CharsNotIn)
+export("mo_parsing.enhancement", LineEnd)
 export("mo_parsing.enhancement", StringEnd)
 export("mo_parsing.enhancement", Empty)
 export("mo_parsing.enhancement", Char)
-- 
2.43.0


From 5204d7b88ed35f9a0370e682a9bc402fae2a8845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:56 +0000
Subject: [PATCH 79/80] fix: the capture groups showed the text of a second
 nested group again

---
 mo_parsing/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 9f9f920..fa6249e 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -313,7 +313,7 @@ class Regex(ParseEnhancement):
                 g = string[s:e]
                 if pe <= s:
                     ann.append(g)
-                pe = e
+                pe = max(pe, e)
                 ii = str(i)
                 ann.append(Annotation(ii, s, e, [g]))
                 n = lookup.get(i)
-- 
2.43.0


From 6c54eacea77a9fe6624d6658c25cdad62f771112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:00 +0000
Subject: [PATCH 80/80] fix: leaving a debugger that was entered twice did not
 restore normal parsing

---
 mo_parsing/debug.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index 417b65c..706f22b 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -20,24 +20,25 @@ _max_preamble = 60
 
 class Debugger(object):
     def __init__(self, silent=False):
-        self.previous_parse = None
-        self.was_debugging = None
+        # ONE FOR EACH TIME ENTERED
+        self.previous_parse = []
+        self.was_debugging = []
         self.parse_count = 0
         self.max_stack_depth = 0
         self.silent = silent
 
     def __enter__(self):
         global DEBUGGER
-        self.was_debugging = DEBUGGER
+        self.was_debugging.append(DEBUGGER)
         DEBUGGER = self
-        self.previous_parse = ParserElement._parse
+        self.previous_parse.append(ParserElement._parse)
         ParserElement._parse = _debug_parse(self)
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         global DEBUGGER
-        ParserElement._parse = self.previous_parse
-        DEBUGGER = self.was_debugging
+        ParserElement._parse = self.previous_parse.pop()
+        DEBUGGER = self.was_debugging.pop()
 
 
 def _debug_parse(debugger):
-- 
2.43.0

