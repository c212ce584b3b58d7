From bbeedfbe7f7dcfd84d613eb6d481fae4519ac60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 01/31] fix: accept only hexadecimal digits in chunk-size

A chunk size like "-2" crashed the stream reader with ValueError,
"-1" swallowed the rest of the stream, and "+5", "0x5", "1_0" were
accepted even though RFC 7230 only allows hexadecimal digits.
---
 httpolice/framing1.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index 3e6e04d..c812610 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -26,6 +26,7 @@ chunk_size = Symbol(u'chunk-size', RFC(7230, section=u'4.1'))
 
 HTTP_VERSION = re.compile(u'^HTTP/[0-9]\\.[0-9]$')
 STATUS_CODE = re.compile(u'^[0-9]{3}$')
+CHUNK_SIZE = re.compile(u'^[0-9A-Fa-f]+$')
 
 
 MAX_BODY_SIZE = 1024 * 1024 * 1024
@@ -299,10 +300,11 @@ def _parse_chunk(stream, data):
         pos = stream.tell()
         (size_s, _, _) = stream.readline().partition(u';')
         with stream.parsing(chunk_size):
-            try:
-                size = int(size_s.rstrip(u' \t'), 16)     # RFC errata ID: 4667
-            except ValueError:
+            size_s = size_s.rstrip(u' \t')      # RFC errata ID: 4667
+            # Just ``int(size_s, 16)`` would let through signs, underscores etc.
+            if not CHUNK_SIZE.match(size_s):
                 raise stream.error(pos)
+            size = int(size_s, 16)
         if size == 0:
             return False
         if size + current_size > MAX_BODY_SIZE:
-- 
2.43.0


From c8c0ee5a3122e312b8084cc23ea1377a97c384e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 02/31] fix: don't crash on numbers with thousands of digits

Python refuses to convert such strings to integers (and such integers
to strings), so a long enough Content-Length, max-age, HTTPolice-Silence
or chunk-size crashed with ValueError.
---
 httpolice/framing1.py        |  3 ++-
 httpolice/syntax/internal.py |  3 ++-
 httpolice/syntax/rfc6797.py  |  3 ++-
 httpolice/syntax/rfc7230.py  |  3 ++-
 httpolice/syntax/rfc7231.py  |  5 +++--
 httpolice/syntax/rfc7233.py  |  9 +++++----
 httpolice/syntax/rfc7234.py  |  3 ++-
 httpolice/util/text.py       | 19 +++++++++++++++++++
 8 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index c812610..24ea1c5 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -11,6 +11,7 @@ from httpolice.request import Request
 from httpolice.response import Response
 from httpolice.structure import (FieldName, HeaderEntry, HTTPVersion, Method,
                                  StatusCode, Unavailable, okay)
+from httpolice.util.text import parse_int
 
 
 # Create empty symbols just for referring to them in parse errors.
@@ -304,7 +305,7 @@ def _parse_chunk(stream, data):
             # Just ``int(size_s, 16)`` would let through signs, underscores etc.
             if not CHUNK_SIZE.match(size_s):
                 raise stream.error(pos)
-            size = int(size_s, 16)
+            size = parse_int(size_s, 16)
         if size == 0:
             return False
         if size + current_size > MAX_BODY_SIZE:
diff --git a/httpolice/syntax/internal.py b/httpolice/syntax/internal.py
index 3c85ad9..5a98df8 100644
--- a/httpolice/syntax/internal.py
+++ b/httpolice/syntax/internal.py
@@ -2,9 +2,10 @@ from httpolice.parse import (fill_names, literal, maybe, pivot, skip, string1,
                              subst)
 from httpolice.syntax.common import DIGIT
 from httpolice.syntax.rfc7230 import RWS, comma_list
+from httpolice.util.text import parse_int
 
 
-notice_id = int << string1(DIGIT)                                       > pivot
+notice_id = parse_int << string1(DIGIT)                                 > pivot
 resp = subst(True) << literal('resp')                                   > pivot
 HTTPolice_Silence = comma_list(notice_id * maybe(skip(RWS) * resp))     > pivot
 
diff --git a/httpolice/syntax/rfc6797.py b/httpolice/syntax/rfc6797.py
index 027d850..c098a5f 100644
--- a/httpolice/syntax/rfc6797.py
+++ b/httpolice/syntax/rfc6797.py
@@ -3,6 +3,7 @@ from httpolice.parse import auto, fill_names, many, maybe, pivot, skip, string1
 from httpolice.structure import HSTSDirective, Parametrized
 from httpolice.syntax.common import DIGIT
 from httpolice.syntax.rfc7230 import OWS, quoted_string, token
+from httpolice.util.text import parse_int
 
 
 # This has been slightly adapted to the rules of RFC 7230.
@@ -19,6 +20,6 @@ def _collect_elements(xs):
 Strict_Transport_Security = _collect_elements << (
     maybe(directive) % many(skip(OWS * ';' * OWS) * maybe(directive)))  > pivot
 
-max_age_value = int << string1(DIGIT)                                   > pivot
+max_age_value = parse_int << string1(DIGIT)                             > pivot
 
 fill_names(globals(), RFC(6797))
diff --git a/httpolice/syntax/rfc7230.py b/httpolice/syntax/rfc7230.py
index d3f57a4..456bf3f 100644
--- a/httpolice/syntax/rfc7230.py
+++ b/httpolice/syntax/rfc7230.py
@@ -10,6 +10,7 @@ from httpolice.syntax.common import ALPHA, DIGIT, DQUOTE, HTAB, SP, VCHAR
 from httpolice.syntax.rfc3986 import (absolute_URI, authority,
                                       host as uri_host, port, query,
                                       relative_part, segment)
+from httpolice.util.text import parse_int
 
 
 obs_text = octet_range(0x80, 0xFF)                                      > auto
@@ -161,6 +162,6 @@ Via = comma_list1(received_protocol * skip(RWS) *
                   received_by *
                   maybe(skip(RWS) * comment(include_parens=False)))     > pivot
 
-Content_Length = int << string1(DIGIT)                                  > pivot
+Content_Length = parse_int << string1(DIGIT)                            > pivot
 
 fill_names(globals(), RFC(7230))
diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 38f77cc..f25f5a8 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -14,6 +14,7 @@ from httpolice.syntax.rfc5646 import Language_Tag as language_tag
 from httpolice.syntax.rfc7230 import (OWS, RWS, comma_list, comma_list1,
                                       comment, field_name, method, partial_URI,
                                       quoted_string, token, token__excluding)
+from httpolice.util.text import parse_int
 
 
 # The standard library's day and month names are locale-dependent,
@@ -213,7 +214,7 @@ Accept_Encoding = comma_list(Parametrized << codings * maybe(weight))   > pivot
 Accept_Language = comma_list1(
     Parametrized << language_range * maybe(weight))                     > pivot
 
-delay_seconds = int << string1(DIGIT)                                   > pivot
+delay_seconds = parse_int << string1(DIGIT)                             > pivot
 Retry_After = HTTP_date | delay_seconds                                 > pivot
 
 Allow = comma_list(method)                                              > pivot
@@ -223,7 +224,7 @@ Content_Location = absolute_URI | partial_URI                           > pivot
 Content_Type = media_type                                               > pivot
 Date = HTTP_date                                                        > pivot
 Location = URI_reference                                                > pivot
-Max_Forwards = int << string1(DIGIT)                                    > pivot
+Max_Forwards = parse_int << string1(DIGIT)                              > pivot
 Referer = absolute_URI | partial_URI                                    > pivot
 Vary = '*' | comma_list1(field_name)                                    > pivot
 Expect = CaseInsensitive << literal('100-continue')                     > pivot
diff --git a/httpolice/syntax/rfc7233.py b/httpolice/syntax/rfc7233.py
index 18d1c83..de9a8d2 100644
--- a/httpolice/syntax/rfc7233.py
+++ b/httpolice/syntax/rfc7233.py
@@ -7,6 +7,7 @@ from httpolice.syntax.common import CHAR, DIGIT, SP, VCHAR
 from httpolice.syntax.rfc7230 import comma_list1, token__excluding
 from httpolice.syntax.rfc7231 import HTTP_date
 from httpolice.syntax.rfc7232 import entity_tag
+from httpolice.util.text import parse_int
 
 
 bytes_unit = RangeUnit << literal('bytes')                              > auto
@@ -22,12 +23,12 @@ def _well_formed1(complain, first, last):
         complain(1133)
     return (first, last)
 
-first_byte_pos = int << string1(DIGIT)                                  > auto
-last_byte_pos = int << string1(DIGIT)                                   > auto
+first_byte_pos = parse_int << string1(DIGIT)                            > auto
+last_byte_pos = parse_int << string1(DIGIT)                             > auto
 byte_range_spec = _well_formed1 << (first_byte_pos * skip('-') *
                                     maybe(last_byte_pos))               > pivot
 
-suffix_length = int << string1(DIGIT)                                   > auto
+suffix_length = parse_int << string1(DIGIT)                             > auto
 suffix_byte_range_spec = \
     (lambda x: (None, x)) << skip('-') * suffix_length                  > pivot
 
@@ -42,7 +43,7 @@ other_ranges_specifier = RangeSpecifier << (
 Range = byte_ranges_specifier | other_ranges_specifier                  > pivot
 
 byte_range = first_byte_pos * skip('-') * last_byte_pos                 > auto
-complete_length = int << string1(DIGIT)                                 > auto
+complete_length = parse_int << string1(DIGIT)                           > auto
 byte_range_resp = (
     byte_range * skip('/') *
     (complete_length | subst(None) << literal('*')))                    > pivot
diff --git a/httpolice/syntax/rfc7234.py b/httpolice/syntax/rfc7234.py
index 6e2a0a9..c619adf 100644
--- a/httpolice/syntax/rfc7234.py
+++ b/httpolice/syntax/rfc7234.py
@@ -8,9 +8,10 @@ from httpolice.syntax.rfc7230 import (comma_list, comma_list1, field_name,
                                       port, pseudonym, quoted_string, token,
                                       token__excluding, uri_host)
 from httpolice.syntax.rfc7231 import HTTP_date
+from httpolice.util.text import parse_int
 
 
-delta_seconds = int << string1(DIGIT)                                   > pivot
+delta_seconds = parse_int << string1(DIGIT)                             > pivot
 Age = delta_seconds                                                     > pivot
 
 cache_directive = Parametrized << (
diff --git a/httpolice/util/text.py b/httpolice/util/text.py
index b1c0916..4393eaf 100644
--- a/httpolice/util/text.py
+++ b/httpolice/util/text.py
@@ -101,6 +101,25 @@ def format_chars(chars):
     return u' or '.join(piece for piece in pieces if piece)
 
 
+MAX_DIGITS = 1000
+
+def parse_int(s, base=10):
+    """Like :class:`int`, but safe for arbitrarily long strings of digits.
+
+    Python refuses to convert very long decimal strings to `int` and back.
+    Numbers longer than `MAX_DIGITS` digits are beyond any practical limit
+    anyway, so we just keep the leading digits -- that's still huge.
+
+    >>> parse_int(u'0042')
+    42
+    >>> parse_int(u'0' * 5000 + u'2A', 16)
+    42
+    >>> len(str(parse_int(u'9' * 5000)))
+    1000
+    """
+    return int(s.lstrip(u'0')[:MAX_DIGITS] or u'0', base)
+
+
 def force_unicode(x, encoding='iso-8859-1'):
     if isinstance(x, bytes):
         return x.decode(encoding)
-- 
2.43.0


From 2c5a316f399698fa1633d126ce40ae6a4fce5003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 03/31] fix: don't crash when Date plus Age is out of range

A huge Age (or a Date near the year 9999) overflowed timedelta/datetime
arithmetic both in the cache check and in ordering exchanges by time.
---
 httpolice/inputs/streams.py | 7 +++++--
 httpolice/response.py       | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 59b1915..6ee15d6 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -311,8 +311,11 @@ def _exchange_time(exchange, hint):
     for resp in exchange.responses:
         if resp.headers.date.is_okay:
             if resp.headers.age.is_okay:
-                return (resp.headers.date.value +
-                        timedelta(seconds=resp.headers.age.value))
+                try:
+                    return (resp.headers.date.value +
+                            timedelta(seconds=resp.headers.age.value))
+                except OverflowError:
+                    pass
             return resp.headers.date.value
     return hint
 
diff --git a/httpolice/response.py b/httpolice/response.py
index ba853c1..2fa0ea6 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -115,8 +115,11 @@ class Response(message.Message):
 
         if self.headers.date.is_okay and self.headers.age.is_okay:
             date = self.headers.date.value
-            age = timedelta(seconds=self.headers.age.value)
-            if date + age > datetime.utcnow() + timedelta(seconds=30):
+            try:
+                date += timedelta(seconds=self.headers.age.value)
+            except OverflowError:
+                date = datetime.max
+            if date > datetime.utcnow() + timedelta(seconds=30):
                 self.complain(1241)
                 return None
 
-- 
2.43.0


From d55188a42d7b722d00942cbfa70d7051e71a866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 04/31] fix: don't crash on charsets that are not text
 encodings

Python has codecs such as "hex" or "base64" that can be looked up
but cannot be used to decode bytes into text.
---
 httpolice/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index c810134..01929ff 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -107,7 +107,8 @@ class Message(Blackboard):
         if okay(self.decoded_body):
             try:
                 self.decoded_body.decode(charset)   # pylint: disable=no-member
-            except UnicodeError:
+            except (LookupError, UnicodeError):
+                # `LookupError` is for codecs that are not text encodings.
                 return None
         return charset
 
-- 
2.43.0


From 2676074577dd5327a5c0f7c1646b62456b3a47d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 05/31] fix: don't crash on deeply nested JSON bodies

---
 httpolice/message.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 01929ff..8548713 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -136,6 +136,9 @@ class Message(Blackboard):
             except ValueError as e:
                 self.complain(1038, error=e)
                 r = Unavailable(self.unicode_body)
+            except RecursionError:
+                # Nested too deeply for us, but not necessarily malformed.
+                r = Unavailable(self.unicode_body)
             else:
                 if self.guessed_charset not in ['ascii', 'utf-8', None]:
                     self.complain(1281)
@@ -211,8 +214,16 @@ class Message(Blackboard):
             if self.guessed_charset and self.guessed_charset != 'utf-8' else []
         pretty_printing = [u'pretty-printing']
 
+        pretty_json = None
         if okay(self.json_data):
-            r = json.dumps(self.json_data, indent=2, ensure_ascii=False)
+            try:
+                pretty_json = json.dumps(self.json_data,
+                                         indent=2, ensure_ascii=False)
+            except RecursionError:      # Nested too deeply.
+                pass
+
+        if pretty_json is not None:
+            r = pretty_json
             transforms = \
                 removing_te + removing_ce + decoding_charset + pretty_printing
         elif okay(self.unicode_body):
-- 
2.43.0


From 2f4357a90386a3f131820853d6ae758e5df7dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 06/31] fix: don't crash on XML bodies in unsupported encodings

---
 httpolice/message.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 8548713..87abfb7 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -157,8 +157,12 @@ class Message(Blackboard):
             except defusedxml.EntitiesForbidden:
                 self.complain(1275)
                 return Unavailable(self.decoded_body)
-            # https://bugs.python.org/issue29896
-            except (xml.etree.ElementTree.ParseError, UnicodeError) as e:
+            # Besides its own `ParseError`, ElementTree can raise
+            # `LookupError`, `ValueError` or `UnicodeError`
+            # depending on the encoding declared in the XML.
+            # See also https://bugs.python.org/issue29896
+            except (xml.etree.ElementTree.ParseError,
+                    LookupError, ValueError) as e:
                 self.complain(1039, error=e)
                 return Unavailable(self.decoded_body)
         else:
-- 
2.43.0


From f1542dd3835a30fe4f684734f5bc356cc54a57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 07/31] fix: don't crash on very deeply nested comments in
 headers

---
 httpolice/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 18e4816..d314b89 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -107,7 +107,8 @@ def parse(data, symbol, complain=None, fail_notice_id=None,
         try:
             parse_result = _inner_parse(data, symbol.as_nonterminal(),
                                         annotate_classes)
-        except ParseError as e:
+        except (ParseError, RecursionError) as e:
+            # `RecursionError` happens on very deeply nested comments.
             if fail_notice_id is None:
                 raise
             complaint = (fail_notice_id, {'error': e})
-- 
2.43.0


From f977a4a392b51e22c47dfcde2be4581cdc3864ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 08/31] fix: make tcpick and tcpflow input independent of
 directory order

The order in which the OS lists a directory decided the order of
connections that started in the same second, and the order of files
in notice 1279.
---
 httpolice/inputs/streams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 6ee15d6..03c13c9 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -38,7 +38,7 @@ def tcpick_input(dir_paths):
         # tcpick's ``-F2`` option.
         dir_path = decode_path(dir_path)
         streams_info = []
-        for name in os.listdir(dir_path):
+        for name in sorted(os.listdir(dir_path)):
             path = os.path.join(dir_path, name)
             match = re.match(
                 r'^tcpick_(\d+)_([^_]+)_([^_]+)_[^.]+.(serv|clnt)\.dat$', name)
@@ -70,7 +70,7 @@ def tcpflow_input(dir_paths):
         dir_path = decode_path(dir_path)
         streams_info = []
         seen = {}
-        for name in os.listdir(dir_path):
+        for name in sorted(os.listdir(dir_path)):
             if name in ['report.xml', 'alerts.txt']:
                 continue
             path = os.path.join(dir_path, name)
-- 
2.43.0


From 767a8b5112cd3cf6fe7540ca4ce14018a6fd95db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 09/31] fix: report notice 1207 in the order parameters appear

Iterating over a set made the order depend on Python's hash seed.
---
 httpolice/response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 2fa0ea6..4ac6448 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -807,8 +807,9 @@ def _check_basic_challenge(resp, hdr, challenge):
     for charset in challenge.param.getall(u'charset'):
         if charset.lower() != u'utf-8':
             resp.complain(1208, header=hdr, charset=charset)
-    for name in set(challenge.param) - {u'charset', u'realm'}:
-        resp.complain(1207, header=hdr, param=name)
+    for name in challenge.param:
+        if name not in [u'charset', u'realm']:
+            resp.complain(1207, header=hdr, param=name)
 
 
 def _check_bearer_challenge(resp, hdr, challenge):
-- 
2.43.0


From f71c7f36e776995662e254bbba6a0f1adaf25163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 10/31] fix: list what a parse error expected in a reproducible
 order

Both the set of symbols and the set of initials in string_excluding
had an order that depended on memory addresses or Python's hash seed.
---
 httpolice/parse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index d314b89..35c4cc5 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -608,7 +608,7 @@ def string_excluding(terminal, excluding):
     This only works when the excluded strings are relatively few and short.
 
     """
-    initials = set(s[0:1].lower() for s in excluding if s)
+    initials = sorted(set(s[0:1].lower() for s in excluding if s))
 
     free = terminal
     for c in initials:
@@ -987,8 +987,10 @@ def _build_parse_error(data, target_symbol, chart):
         if isinstance(next_symbol, Terminal):
             chars = format_chars(next_symbol.chars())
             # And why did we expect it? As part of what nonterminals?
-            expected.setdefault(chars, set()).update(
-                _find_pivots(chart, symbol, start))
+            pivots = expected.setdefault(chars, [])
+            for pivot_ in _find_pivots(chart, symbol, start):
+                if pivot_ not in pivots:
+                    pivots.append(pivot_)
 
         if symbol is target_symbol and next_symbol is None:
             # This item indicates a complete parse of `target_symbol`,
-- 
2.43.0


From 474de6a7cb5b1f72af5ebfe98f294682217663e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 11/31] fix: don't crash on malformed values in HAR files

Values of the wrong type (such as a null header value or a non-numeric
status), an unparsable URL, or very deep nesting are now reported
as "cannot understand HAR file" or "bad HAR file", like missing keys.
---
 httpolice/inputs/har.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 6b18632..1f3f676 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -26,13 +26,14 @@ def har_input(paths):
         with io.open(path, 'rt', encoding='utf-8-sig') as f:
             try:
                 data = json.load(f)
-            except ValueError as exc:
+            except (ValueError, RecursionError) as exc:
                 raise InputError('%s: bad HAR file: %s' % (path, exc)) from exc
             try:
                 creator = data['log']['creator']['name']
                 for entry in data['log']['entries']:
                     yield _process_entry(entry, creator, path)
-            except (TypeError, KeyError) as exc:
+            except (AttributeError, KeyError, OverflowError, TypeError,
+                    ValueError) as exc:
                 raise InputError('%s: cannot understand HAR file: %r' %
                                  (path, exc)) from exc
 
@@ -80,7 +81,7 @@ def _process_request(data, creator, path):
     text = None
     post = data.get('postData')
     if post and post.get('text'):
-        text = post['text']
+        text = _check_text(post['text'])
         if creator in FIDDLER and method == m.CONNECT and u'Fiddler' in text:
             # Fiddler's HAR export adds a body with debug information
             # to CONNECT requests.
@@ -130,7 +131,8 @@ def _process_response(data, req, creator, path):
     if data['content'].get('text') and status != st.not_modified:
         if data['content'].get('encoding', u'').lower() == u'base64':
             try:
-                decoded_body = base64.b64decode(data['content']['text'])
+                decoded_body = base64.b64decode(
+                    _check_text(data['content']['text']))
             except ValueError:
                 pass
             else:
@@ -143,11 +145,17 @@ def _process_response(data, req, creator, path):
                     resp.decoded_body = decoded_body
 
         elif 'encoding' not in data['content']:
-            resp.unicode_body = data['content']['text']
+            resp.unicode_body = _check_text(data['content']['text'])
 
     return resp
 
 
+def _check_text(text):
+    if not isinstance(text, str):
+        raise TypeError('text is not a string: %r' % text)
+    return text
+
+
 def _process_message(data, creator):
     header_entries = [(FieldName(d['name']), d['value'])
                       for d in data['headers']]
-- 
2.43.0


From 90123ee6454eb5485994385d885fba54a4e9bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 12/31] fix: don't crash on out-of-range timestamps in tcpflow
 filenames

---
 httpolice/inputs/streams.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 03c13c9..998378b 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -80,14 +80,18 @@ def tcpflow_input(dir_paths):
                                  u'(did you use the right -T option?)' % name)
             (timestamp, src, dest) = match.groups()
             timestamp = int(timestamp)
+            try:
+                time_hint = datetime.utcfromtimestamp(timestamp)
+            except (OSError, OverflowError, ValueError) as exc:
+                raise InputError(u'bad timestamp in tcpflow filename %s' %
+                                 name) from exc
             if (src, dest) in seen:
                 raise InputError(u'duplicate source+destination address+port: '
                                  u'%s vs. %s' % (path, seen[(src, dest)]))
             seen[(src, dest)] = path
             streams_info.append(_StreamInfo(
                 path, source=src, destination=dest, connection_hint=None,
-                time_hint=datetime.utcfromtimestamp(timestamp),
-                sort_hint=timestamp))
+                time_hint=time_hint, sort_hint=timestamp))
         path_pairs.extend(_recombine_streams(streams_info))
 
     return _path_pairs_input(path_pairs, sniff_direction=True,
-- 
2.43.0


From de964d48f1c1dce22d7c4aba8c48daa053316bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 13/31] fix: don't present incomplete or corrupted gzip data as
 decoded

decompressobj() only verifies the gzip checksum once it reaches the end
of the data, so truncated data -- and damaged data that looks unfinished --
was silently presented as the decoded body. Also, only the first member
of multi-member gzip data was decoded.
---
 httpolice/codings.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/httpolice/codings.py b/httpolice/codings.py
index b827432..451ba64 100644
--- a/httpolice/codings.py
+++ b/httpolice/codings.py
@@ -7,7 +7,19 @@ import brotli
 
 def decode_gzip(data):
     # Just ``decompress(data, 16 + zlib.MAX_WBITS)`` doesn't work.
-    return zlib.decompressobj(16 + zlib.MAX_WBITS).decompress(data)
+    r = b''
+    while data:
+        decompressor = zlib.decompressobj(16 + zlib.MAX_WBITS)
+        r += decompressor.decompress(data)
+        if not decompressor.eof:
+            # Without the final checksum, there's no telling
+            # whether what we have decompressed is right.
+            raise EOFError(u'incomplete gzip data')
+        # There may be more members (RFC 1952 Section 2.2).
+        data = decompressor.unused_data
+        if not data.startswith(b'\x1F\x8B'):
+            break
+    return r
 
 
 def decode_deflate(data):
-- 
2.43.0


From 03e8a6072244d82ff8b6219bc940e1def839fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 14/31] fix: don't take quadratic time on bodies of many chunks

---
 httpolice/framing1.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index 24ea1c5..8194941 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -295,8 +295,7 @@ class BodyTooLongError(Exception):
         self.max_size = max_size
 
 
-def _parse_chunk(stream, data):
-    current_size = sum(len(c) for c in data)
+def _parse_chunk(stream, data, current_size):
     with stream.parsing(chunk):
         pos = stream.tell()
         (size_s, _, _) = stream.readline().partition(u';')
@@ -307,21 +306,25 @@ def _parse_chunk(stream, data):
                 raise stream.error(pos)
             size = parse_int(size_s, 16)
         if size == 0:
-            return False
+            return 0
         if size + current_size > MAX_BODY_SIZE:
             stream.sane = False
             raise BodyTooLongError(size + current_size, MAX_BODY_SIZE)
         data.append(stream.read(size))
         stream.readlineend()
-        return True
+        return size
 
 
 def _parse_chunked(msg, stream):
     data = []
+    total_size = 0
     place = u'chunked framing'
     try:
-        while _parse_chunk(stream, data):
-            pass
+        while True:
+            size = _parse_chunk(stream, data, total_size)
+            if size == 0:
+                break
+            total_size += size
         trailer = parse_header_fields(stream)
         with stream.parsing(chunked_body):
             stream.readlineend()
-- 
2.43.0


From 26ad8a5c0168ed5611f23a229cf6dc979bf49110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 15/31] fix: don't drop half of a tcpick connection between
 equal addresses

---
 httpolice/inputs/streams.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 998378b..7b6dcbb 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -47,6 +47,8 @@ def tcpick_input(dir_paths):
                                  u'(did you use the -F2 option?)' % name)
             (counter, src, dest, direction) = match.groups()
             counter = int(counter)
+            # The two addresses may be the same (as with traffic on loopback).
+            (src, dest) = ((src, 'clnt'), (dest, 'serv'))
             if direction == 'serv':
                 (src, dest) = (dest, src)
             streams_info.append(_StreamInfo(path, source=src, destination=dest,
-- 
2.43.0


From 2725eacbd7e0556bb1303213d0d82e2c8da03de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 16/31] fix: refuse ambiguous tcpick filenames instead of
 dropping a stream

---
 httpolice/inputs/streams.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 7b6dcbb..13d7332 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -38,6 +38,7 @@ def tcpick_input(dir_paths):
         # tcpick's ``-F2`` option.
         dir_path = decode_path(dir_path)
         streams_info = []
+        seen = {}
         for name in sorted(os.listdir(dir_path)):
             path = os.path.join(dir_path, name)
             match = re.match(
@@ -51,6 +52,11 @@ def tcpick_input(dir_paths):
             (src, dest) = ((src, 'clnt'), (dest, 'serv'))
             if direction == 'serv':
                 (src, dest) = (dest, src)
+            if (counter, src, dest) in seen:
+                raise InputError(u'duplicate counter+source+destination: '
+                                 u'%s vs. %s' %
+                                 (path, seen[(counter, src, dest)]))
+            seen[(counter, src, dest)] = path
             streams_info.append(_StreamInfo(path, source=src, destination=dest,
                                             connection_hint=counter,
                                             time_hint=None, sort_hint=counter))
-- 
2.43.0


From b9330097760477aab4d7a8abdcf30f7228d2fdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 17/31] fix: report garbage after gzip data instead of ignoring
 it

It may well be a damaged next member, in which case what has been decoded
is only a part of the body.
---
 httpolice/codings.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/httpolice/codings.py b/httpolice/codings.py
index 451ba64..cff4dd1 100644
--- a/httpolice/codings.py
+++ b/httpolice/codings.py
@@ -1,25 +1,16 @@
 """Decoding content and transfer codings."""
 
+import gzip
+import io
 import zlib
 
 import brotli
 
 
 def decode_gzip(data):
-    # Just ``decompress(data, 16 + zlib.MAX_WBITS)`` doesn't work.
-    r = b''
-    while data:
-        decompressor = zlib.decompressobj(16 + zlib.MAX_WBITS)
-        r += decompressor.decompress(data)
-        if not decompressor.eof:
-            # Without the final checksum, there's no telling
-            # whether what we have decompressed is right.
-            raise EOFError(u'incomplete gzip data')
-        # There may be more members (RFC 1952 Section 2.2).
-        data = decompressor.unused_data
-        if not data.startswith(b'\x1F\x8B'):
-            break
-    return r
+    # Unlike ``zlib.decompressobj().decompress()``, this reads all members
+    # (RFC 1952 Section 2.2), and doesn't accept incomplete data or garbage.
+    return gzip.GzipFile(fileobj=io.BytesIO(data)).read()
 
 
 def decode_deflate(data):
-- 
2.43.0


From 2bcf5d78a1ab9c7fe15c5067963012990efc2d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 18/31] fix: don't crash on Link parameters without a value

---
 httpolice/syntax/rfc8288.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/httpolice/syntax/rfc8288.py b/httpolice/syntax/rfc8288.py
index 10d5c69..5c7ad44 100644
--- a/httpolice/syntax/rfc8288.py
+++ b/httpolice/syntax/rfc8288.py
@@ -23,8 +23,7 @@ def _process_params(complain, params):
                 # "occurrences after the first MUST be ignored by parsers"
                 continue
             seen.add(name)
-        if value is not None:
-            (parsed_as, value) = value
+        (parsed_as, value) = value or (None, None)
         if name == u'title' and parsed_as is token:
             complain(1307)
         if name == u'hreflang' and parsed_as is quoted_string:
@@ -34,8 +33,9 @@ def _process_params(complain, params):
             u'hreflang': hreflang, u'type': type_, u'title*': ext_value,
         }.get(name)
         if symbol is not None:
-            value = parse(value, symbol, complain, 1158,
-                          name=name, value=value)
+            # A missing value is the same as an empty one.
+            value = parse(value or u'', symbol, complain, 1158,
+                          name=name, value=value or u'')
         r.append((name, value))
         if name == u'rev':
             complain(1226)
-- 
2.43.0


From c295469059505eb30f72f6c0b377ee85320bf94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 19/31] fix: Report fully written to unbuffered (raw) files, or
 an error

---
 httpolice/reports/common.py | 19 +++++++++++++++++++
 httpolice/reports/html.py   |  9 +++++----
 httpolice/reports/text.py   | 14 +++++++++++---
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/httpolice/reports/common.py b/httpolice/reports/common.py
index ebae1b3..dc57452 100644
--- a/httpolice/reports/common.py
+++ b/httpolice/reports/common.py
@@ -1,4 +1,7 @@
+import errno
 from functools import singledispatch
+import io
+import os
 
 from httpolice import known, notice
 from httpolice.header import HeaderView
@@ -75,3 +78,19 @@ def expand_parse_error(error):
 
 def find_reason_phrase(response):
     return response.reason or known.title(response.status) or u'(unknown)'
+
+
+def write_fully(buf, data):
+    """Write all of the bytestring `data` to the file-like `buf`.
+
+    A raw file (such as ``sys.stdout.buffer`` under ``python -u``) can accept
+    only a part of the data at a time, and merely return how much it was.
+    """
+    if not isinstance(buf, io.RawIOBase):
+        buf.write(data)
+        return
+    while data:
+        n = buf.write(data)
+        if n is None:       # The file is in non-blocking mode.
+            raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
+        data = data[n:]
diff --git a/httpolice/reports/html.py b/httpolice/reports/html.py
index 11959ae..9437ea9 100644
--- a/httpolice/reports/html.py
+++ b/httpolice/reports/html.py
@@ -10,7 +10,8 @@ from httpolice.__metadata__ import homepage, version
 from httpolice.citation import Citation
 from httpolice.header import HeaderView
 from httpolice.reports.common import (expand_error, expand_piece,
-                                      find_reason_phrase, resolve_reference)
+                                      find_reason_phrase, resolve_reference,
+                                      write_fully)
 from httpolice.structure import Unavailable
 from httpolice.util.text import nicely_join, printable
 
@@ -57,10 +58,10 @@ def html_report(exchanges, buf):
 
     (prologue, epilogue) = document.render().split(separator)
 
-    buf.write(prologue.encode('utf-8'))
+    write_fully(buf, prologue.encode('utf-8'))
     for div in _generate_exchange_divs(exchanges):
-        buf.write(div.render().encode('utf-8'))
-    buf.write(epilogue.encode('utf-8'))
+        write_fully(buf, div.render().encode('utf-8'))
+    write_fully(buf, epilogue.encode('utf-8'))
 
 
 class Placeholder:
diff --git a/httpolice/reports/text.py b/httpolice/reports/text.py
index 2ce6234..eca6fff 100644
--- a/httpolice/reports/text.py
+++ b/httpolice/reports/text.py
@@ -1,9 +1,8 @@
-import codecs
 from functools import singledispatch
 
 from httpolice import notice
 from httpolice.reports.common import (expand_piece, find_reason_phrase,
-                                      resolve_reference)
+                                      resolve_reference, write_fully)
 from httpolice.util.text import (detypographize, ellipsize, printable,
                                  write_if_any)
 
@@ -20,7 +19,7 @@ def text_report(exchanges, buf):
         It must be opened in binary mode (not text).
 
     """
-    f1 = codecs.getwriter('utf-8')(buf)
+    f1 = _Utf8Writer(buf)
     for exch in exchanges:
         with write_if_any(_exchange_marker(exch), f1) as f2:
             if exch.request:
@@ -34,6 +33,15 @@ def text_report(exchanges, buf):
                 _write_complaint_line(complaint, f2)
 
 
+class _Utf8Writer:
+
+    def __init__(self, buf):
+        self._buf = buf
+
+    def write(self, text):
+        write_fully(self._buf, text.encode('utf-8'))
+
+
 def _exchange_marker(exchange):
     if exchange.request:
         marker = u'------------ request: %s %s' % (
-- 
2.43.0


From 33ed19ce1a681d9382aa06c09bd4fcadfa652b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 20/31] fix: Close files of other connections when one cannot
 be read

---
 httpolice/inputs/streams.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 13d7332..b19d398 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -1,7 +1,6 @@
 from collections import OrderedDict, namedtuple
 from datetime import datetime, timedelta
 import io
-import itertools
 import os
 import re
 
@@ -206,16 +205,31 @@ def _path_pairs_input(path_pairs, sniff_direction=False,
             else:
                 (inbound_path, outbound_path) = direction
 
-        if inbound_path or outbound_path:
-            # Finally we can parse the streams as HTTP/1.x,
-            # appending them to the complaint boxes we may have produced above.
-            sequence = itertools.chain(sequence,
-                                       _parse_paths(inbound_path,
-                                                    outbound_path))
+        # Finally we can parse the streams as HTTP/1.x,
+        # appending them to the complaint boxes we may have produced above.
+        sequences.append((_chain(sequence, inbound_path, outbound_path),
+                          time_hint))
 
-        sequences.append((iter(sequence), time_hint))
+    return _merge(sequences)
 
-    return _rearrange_by_time(sequences)
+
+def _chain(boxes, inbound_path, outbound_path):
+    for box in boxes:
+        yield box
+    if inbound_path or outbound_path:
+        for exch in _parse_paths(inbound_path, outbound_path):
+            yield exch
+
+
+def _merge(sequences):
+    try:
+        for exch in _rearrange_by_time(sequences):
+            yield exch
+    finally:
+        # If we are interrupted (for example, because one of the files cannot
+        # be read), close the files of all the other connections, too.
+        for (sequence, _) in sequences:
+            sequence.close()
 
 
 def _parse_paths(inbound_path, outbound_path, scheme=u'http'):
-- 
2.43.0


From 1f1a263aff827ea5cfcb6fa0160ea843d0c2e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 21/31] fix: crash on a malformed rel of Link in a 451 response

---
 httpolice/response.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 4ac6448..b2d2e23 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -328,8 +328,8 @@ def check_response_itself(resp):
         complain(1162)
 
     if status == st.unavailable_for_legal_reasons:
-        if not any(u'blocked-by' in link.param.get(u'rel', [])
-                   for link in headers.link):
+        rels = [link.param.get(u'rel', []) for link in headers.link]
+        if not any(u'blocked-by' in rel for rel in rels if okay(rel)):
             complain(1243)
 
     if headers.content_disposition.is_okay:
-- 
2.43.0


From c45cbdbe10faa5479605850d290aa4f3e8470820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 22/31] fix: reports showed status and warn codes as
 'StatusCode(200)'

---
 httpolice/structure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/httpolice/structure.py b/httpolice/structure.py
index c05700f..c6da8ab 100644
--- a/httpolice/structure.py
+++ b/httpolice/structure.py
@@ -198,6 +198,9 @@ class StatusCode(int):
     def __repr__(self):
         return 'StatusCode(%d)' % self
 
+    def __str__(self):      # Since Python 3.8, this would be the `repr`.
+        return '%d' % self
+
     informational = property(lambda self: 100 <= self <= 199)
     successful = property(lambda self: 200 <= self <= 299)
     redirection = property(lambda self: 300 <= self <= 399)
@@ -367,6 +370,9 @@ class WarnCode(int):
     def __repr__(self):
         return 'WarnCode(%d)' % self
 
+    def __str__(self):      # Since Python 3.8, this would be the `repr`.
+        return '%d' % self
+
 
 class AuthScheme(CaseInsensitive):
 
-- 
2.43.0


From 859c095ccad77616af55f87e0ddfaa08e6fe4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 23/31] fix: Exchange.silence with an iterator did not silence
 messages

---
 httpolice/blackboard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httpolice/blackboard.py b/httpolice/blackboard.py
index 7c2ffa3..7f02b00 100644
--- a/httpolice/blackboard.py
+++ b/httpolice/blackboard.py
@@ -64,6 +64,7 @@ class Blackboard:
           An iterable of notice IDs that will be silenced on this object,
           so they don't appear in :attr:`notices` or in reports.
         """
+        notice_ids = list(notice_ids)       # may be a one-time iterator
         self._silenced.update(notice_ids)
         for child in self.children:
             child.silence(notice_ids)
-- 
2.43.0


From 5a1a801ae8b85d0c8fd7711c4cf81ecc88b70a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 24/31] fix: equal complaints about unparsable values no longer
 depend on what is memoized

Equal complaints are only kept once per message. But those that refer to
a ParseError from inside a memoized value (such as a parameter of Link)
were equal only as long as the value remained memoized, so another thread
that happened to evict it in the meantime changed the report.
---
 httpolice/parse.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 35c4cc5..d4c6cf1 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -169,6 +169,21 @@ class ParseError(Exception):
         self.expected = expected
         self.found = found
 
+    # Whether two equal values that fail to parse produce equal errors
+    # must not depend on whether the first one was still memoized.
+
+    def _key(self):
+        return (self.name, self.position, self.expected, self.found)
+
+    def __eq__(self, other):
+        return isinstance(other, ParseError) and self._key() == other._key()
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return hash((self.name, self.position, self.found))
+
 
 ###############################################################################
 # Combinators to construct a grammar suitable for the Earley algorithm.
-- 
2.43.0


From fce09292954ff4c70454c8ef6868c0e0eaf396dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 25/31] fix: HTML reports generated in several threads no
 longer mix up references

Two threads could give the same number to two objects, one of which might
then be highlighted in place of the other in any later report.
---
 httpolice/reports/html.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httpolice/reports/html.py b/httpolice/reports/html.py
index 9437ea9..8babdf4 100644
--- a/httpolice/reports/html.py
+++ b/httpolice/reports/html.py
@@ -1,4 +1,5 @@
 from functools import singledispatch
+import itertools
 import pkgutil
 
 import dominate
@@ -230,10 +231,13 @@ def _render_complaints(obj):
 # See https://security.stackexchange.com/q/121238/108469
 
 _seen_ids = {}
+_id_counter = itertools.count()
 
 def _anonymize_id(id_):
     if id_ not in _seen_ids:
-        _seen_ids[id_] = len(_seen_ids)
+        # Other threads may be doing the same at this moment,
+        # but no two objects must ever get the same number.
+        _seen_ids.setdefault(id_, next(_id_counter))
     return _seen_ids[id_]
 
 
-- 
2.43.0


From 9caf7414095602e3b0bd61a65372d5003963885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 26/31] fix: Close input files right away when the iterator is
 closed

A generator held by the (cyclic) frame of a header parsed with an error
could keep the files open until the next garbage collection.
---
 httpolice/inputs/streams.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index b19d398..ea93977 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -217,14 +217,14 @@ def _chain(boxes, inbound_path, outbound_path):
     for box in boxes:
         yield box
     if inbound_path or outbound_path:
-        for exch in _parse_paths(inbound_path, outbound_path):
-            yield exch
+        # ``yield from`` makes sure that closing us closes the files right away
+        # (otherwise they can stay open until the next garbage collection).
+        yield from _parse_paths(inbound_path, outbound_path)
 
 
 def _merge(sequences):
     try:
-        for exch in _rearrange_by_time(sequences):
-            yield exch
+        yield from _rearrange_by_time(sequences)
     finally:
         # If we are interrupted (for example, because one of the files cannot
         # be read), close the files of all the other connections, too.
-- 
2.43.0


From 4e2ef293e70247c9be3b47cfe68256a8ff9501f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 27/31] fix: Don't crash on multipart bodies that the email
 parser trips over

---
 httpolice/message.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 87abfb7..38eeafb 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -179,7 +179,12 @@ class Message(Blackboard):
             # and should be parseable as email message payloads.
             multipart_code = (b'Content-Type: ' + ctype.entries[0].value +
                               b'\r\n\r\n' + self.decoded_body)
-            parsed = parse_email_message(multipart_code)
+            try:
+                parsed = parse_email_message(multipart_code)
+            except (ValueError, RecursionError):
+                # The parser trips over some parameters of ``Content-Type``
+                # (of the message or its parts), and over deeply nested parts.
+                return Unavailable(self.decoded_body)
             for d in parsed.defects:
                 if isinstance(d, email.errors.NoBoundaryInMultipartDefect):
                     self.complain(1139)
-- 
2.43.0


From 7a1ab992a93473fb4a44856e24ab1bb4efbb4dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:52 +0000
Subject: [PATCH 28/31] fix: Parse Forwarded headers with many commas in linear
 time

---
 httpolice/syntax/rfc7230.py |  9 +++++++++
 httpolice/syntax/rfc7239.py | 11 ++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/httpolice/syntax/rfc7230.py b/httpolice/syntax/rfc7230.py
index 456bf3f..7e2a477 100644
--- a/httpolice/syntax/rfc7230.py
+++ b/httpolice/syntax/rfc7230.py
@@ -90,6 +90,15 @@ def comma_list1(element):
         many(skip(OWS * ',') * maybe(skip(OWS) * element))
     ) > named(u'1#rule', RFC(7230, section=u'7'))
 
+def comma_list1_of_maybe(element):
+    # The same as ``comma_list1(maybe(element))``. Spelled like that,
+    # it would be very ambiguous, because any element of a list may be omitted
+    # anyway, and a few thousand commas would take minutes to parse.
+    return _collect_elements << (
+        maybe(group(element)) %
+        many(skip(OWS * ',') * maybe(skip(OWS) * maybe(element)))
+    ) > named(u'1#rule', RFC(7230, section=u'7'))
+
 method = Method << token                                                > pivot
 
 absolute_path = string1('/' + segment)                                  > pivot
diff --git a/httpolice/syntax/rfc7239.py b/httpolice/syntax/rfc7239.py
index ff45fd0..77eefaa 100644
--- a/httpolice/syntax/rfc7239.py
+++ b/httpolice/syntax/rfc7239.py
@@ -1,10 +1,10 @@
 from httpolice.citation import RFC
-from httpolice.parse import (fill_names, many, maybe, pivot, skip, string1,
-                             string_times)
+from httpolice.parse import (fill_names, many, many1, maybe, pivot, skip,
+                             string1, string_times)
 from httpolice.structure import ForwardedParam
 from httpolice.syntax.common import ALPHA, DIGIT
 from httpolice.syntax.rfc3986 import IPv4address, IPv6address
-from httpolice.syntax.rfc7230 import comma_list1, quoted_string, token
+from httpolice.syntax.rfc7230 import comma_list1_of_maybe, quoted_string, token
 
 
 def _remove_empty(xs):
@@ -26,9 +26,10 @@ value = token | quoted_string                                           > pivot
 forwarded_pair = (ForwardedParam << token) * skip('=') * value          > pivot
 
 forwarded_element = _remove_empty << (
-    maybe(forwarded_pair) % many(skip(';') * maybe(forwarded_pair)))    > pivot
+    forwarded_pair % many(skip(';') * maybe(forwarded_pair)) |
+    many1(skip(';') * maybe(forwarded_pair)))                           > pivot
 
-Forwarded = comma_list1(forwarded_element)                              > pivot
+Forwarded = comma_list1_of_maybe(forwarded_element)                     > pivot
 
 
 fill_names(globals(), RFC(7239))
-- 
2.43.0


From 085cd4a3ba5ae16afca97e9ce28e602b2cc500ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:40 +0000
Subject: [PATCH 29/31] fix: Check messages with many different headers in
 linear time

---
 httpolice/header.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/httpolice/header.py b/httpolice/header.py
index 32b281a..12530ed 100644
--- a/httpolice/header.py
+++ b/httpolice/header.py
@@ -20,7 +20,8 @@ import sys
 from httpolice import known
 from httpolice.known import HeaderRule, h
 from httpolice.parse import parse
-from httpolice.structure import MultiDict, Parametrized, Unavailable, okay
+from httpolice.structure import (FieldName, MultiDict, Parametrized,
+                                 Unavailable, okay)
 from httpolice.syntax.rfc7230 import quoted_string, token
 from httpolice.util.data import duplicates
 
@@ -40,6 +41,7 @@ class HeadersView:
     def __init__(self, message):
         self._message = message
         self._cache = {}
+        self._entries_by_name = None
 
     def __getattr__(self, name):
         return self[getattr(h, name)]
@@ -82,15 +84,19 @@ class HeadersView:
         for name in self.names:
             yield self[name]
 
-    def enumerate(self, name=None):
-        return [
-            (from_trailer, i, entry)
-            for from_trailer, entries
-            in [(False, self._message.header_entries),
-                (True, self._message.trailer_entries)]
-            for i, entry in enumerate(entries or [])
-            if (name is None) or (name == entry.name)
-        ]
+    def enumerate(self, name):
+        # A message can have thousands of headers,
+        # so it's important not to go over all of them for each one.
+        if self._entries_by_name is None:
+            r = {}
+            for from_trailer, entries in [
+                    (False, self._message.header_entries),
+                    (True, self._message.trailer_entries)]:
+                for i, entry in enumerate(entries or []):
+                    r.setdefault(entry.name, []).append(
+                        (from_trailer, i, entry))
+            self._entries_by_name = r
+        return self._entries_by_name.get(FieldName(name), [])
 
     def clearly(self, predicate):
         return set(name for name in self.names if predicate(name))
-- 
2.43.0


From 24815f4aee2c01dd956a17edfe526d10b01fed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 30/31] fix: Don't try to decode bodies from Punycode, which
 can take minutes

---
 httpolice/message.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httpolice/message.py b/httpolice/message.py
index 38eeafb..eaf0215 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -103,6 +103,10 @@ class Message(Blackboard):
         except (LookupError, UnicodeError):
             return None
         charset = codec.name
+        if charset in ['idna', 'punycode']:
+            # These Python codecs are not charsets of any text,
+            # and can take quadratic time.
+            return None
 
         if okay(self.decoded_body):
             try:
-- 
2.43.0


From e833e950c902c30258ad65c1bf67d89f837c0b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:24 +0000
Subject: [PATCH 31/31] fix: Treat the end of a file as final, even if the file
 grows later

---
 httpolice/stream.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/httpolice/stream.py b/httpolice/stream.py
index 92598a9..080eb44 100644
--- a/httpolice/stream.py
+++ b/httpolice/stream.py
@@ -48,13 +48,19 @@ class Stream:
     def tell(self):
         return self.file.tell()
 
+    # Once we have reached EOF, we stay there, even if the file grows later
+    # (because the capture is still in progress).
+
     def peek(self, n=1):
-        return self.file.peek(n)[:n]
+        r = b'' if self.eof else self.file.peek(n)[:n]
+        if r == b'':
+            self.eof = True
+        return r
 
     def read(self, n=-1):
         pos = self.tell()
-        r = self.file.read(n)
-        if self.peek() == b'':
+        r = b'' if self.eof else self.file.read(n)
+        if n < 0 or len(r) < n or self.peek() == b'':
             self.eof = True
         if len(r) < n and n > 0:
             raise self.error(pos, expected=u'at least %d bytes' % n)
@@ -62,11 +68,12 @@ class Stream:
 
     def readline(self, decode=True):
         pos = self.tell()
-        r = self.file.readline(self.max_line_length)
-        if self.peek() == b'':
+        r = b'' if self.eof else self.file.readline(self.max_line_length)
+        complete = r.endswith(b'\n') or len(r) >= self.max_line_length
+        if not complete or self.peek() == b'':
             self.eof = True
         if not r.endswith(b'\n'):
-            if len(r) >= self.max_line_length:
+            if complete:
                 raise self.error(
                     pos,
                     expected=u'no more than %d bytes before end of line' %
-- 
2.43.0

