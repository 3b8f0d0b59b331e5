From d2f5f4d9f89e4e106f10abf2faa4b2d8dc41e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 01/71] fix: escape backslashes and carriage returns in PDF
 strings

---
 pdfme/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 4aafb09..75fe776 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -82,7 +82,8 @@ def parse_obj(obj: ObjectType) -> bytes:
     elif isinstance(obj, (int, float)):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
-        return ('(' + re.sub(r'([()])', r'\\\1', obj) + ')').encode('latin')
+        text = re.sub(r'([()\\])', r'\\\1', obj).replace('\r', '\\r')
+        return ('(' + text + ')').encode('latin')
 
 
 def parse_dict(obj: dict) -> bytes:
-- 
2.43.0


From af5c09d88cd4b59e5c5d3ee433544df767c1f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 02/71] fix: write floats without exponent notation, as PDF has
 none

---
 pdfme/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 75fe776..58cf9de 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -1,4 +1,5 @@
 import re
+from decimal import Decimal
 from typing import Iterable, Union
 class PDFObject:
     """A class that represents a PDF object.
@@ -79,7 +80,13 @@ def parse_obj(obj: ObjectType) -> bytes:
         return obj
     elif isinstance(obj, bool):
         return b'true' if obj else b'false'
-    elif isinstance(obj, (int, float)):
+    elif isinstance(obj, float):
+        # PDF has no exponent notation for numbers
+        text = repr(obj)
+        if 'e' in text:
+            text = format(Decimal(text), 'f')
+        return text.encode('latin')
+    elif isinstance(obj, int):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
         text = re.sub(r'([()\\])', r'\\\1', obj).replace('\r', '\\r')
-- 
2.43.0


From 5a9173fa5739428f877ecd9cb01f2f43f142a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 03/71] fix: escape special characters of dict keys in PDF
 names

---
 pdfme/parser.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 58cf9de..ed8cefb 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -93,6 +93,20 @@ def parse_obj(obj: ObjectType) -> bytes:
         return ('(' + text + ')').encode('latin')
 
 
+def parse_name(name: str) -> bytes:
+    """Function to convert a dict key to the characters of a PDF Name, writing
+    the ones that are not regular characters with their #xx code.
+
+    Args:
+        name (str): the name.
+
+    Returns:
+        bytes: bytes representing the PDF Name, without the initial slash.
+    """
+    return re.sub(
+        r'[^!-~]|[#%()/<>\[\]{}]', lambda m: '#%02X' % ord(m.group()), name
+    ).encode('latin')
+
 def parse_dict(obj: dict) -> bytes:
     """Function to convert a python dict to a bytes object representing the
     corresponding PDF Dictionary.
@@ -105,7 +119,7 @@ def parse_dict(obj: dict) -> bytes:
     """
     bytes_ = b'<<'
     for key, value in obj.items():
-        bytes_ += b'/' + key.encode('latin')
+        bytes_ += b'/' + parse_name(key)
         ret = parse_obj(value)
         if not ret[0] in [b'/', b'(', b'<']: bytes_ += b' '
         bytes_ += ret
-- 
2.43.0


From b6a4d59ef82f8b555ed536647898c2a326277468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 04/71] fix: accept b:1, i:0 and spaced attributes in style
 strings

---
 pdfme/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 45f12ab..9959c01 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -196,7 +196,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element "{}" must be 0 or 1: {}'
                         .format(attr, value)
                     )
-            if attr == "f":
+            elif attr == "f":
                 if value not in fonts.fonts:
                     font_found = False
 
@@ -216,7 +216,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                 style['c'] = PDFColor(value)
             elif attr == "bg":
                 style['bg'] = PDFColor(value)
-            elif attrs[0] == "s":
+            elif attr == "s":
                 try:
                     v = float(value)
                     if int(v) == v:
@@ -227,7 +227,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element value for "s" is wrong:'
                         ' {}'.format(value)
                     )
-            elif attrs[0] == 'r':
+            elif attr == 'r':
                 try: style['r'] = float(value)
                 except:
                     raise ValueError(
-- 
2.43.0


From c6ea5fb44691094268e769a87393b05458aa83f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 05/71] fix: lay out list paragraphs without text, with escapes
 and after breaks

---
 pdfme/text.py | 58 ++++++++++++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 7e05300..e4492c2 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -603,6 +603,11 @@ class PDFTextBase:
         self.lines = []
 
         line_width = self.width - (self.indent if self.is_first_line else 0)
+        if self.list_text:
+            if not self.list_setup_done:
+                self.list_setup_done = True
+                self.setup_list()
+            line_width -= self.list_indent
         self.current_line = PDFTextLine(
             self.fonts, line_width, self.text_align, self.line_height
         )
@@ -645,8 +650,9 @@ class PDFTextBase:
                     self.last_word_added = 0
                     continue_ = self.add_current_line(True)
                     self.current_line = PDFTextLine(
-                        self.fonts, self.width, self.text_align,
-                        self.line_height
+                        self.fonts, self.width - (
+                            self.list_indent if self.list_text else 0
+                        ), self.text_align, self.line_height
                     )
                     if not continue_:
                         return self.result
@@ -685,10 +691,6 @@ class PDFTextBase:
             style=style, ids=part.get('ids')
         )
 
-        if not self.list_setup_done and self.list_text:
-            self.list_setup_done = True
-            self.setup_list()
-
         self.current_line_used_fonts.add((
             new_line_part.state.font_family,
             new_line_part.state.font_mode
@@ -772,7 +774,11 @@ class PDFTextBase:
             TypeError: if list_style or list_indent passed to this instance
                 are not a dict and an number respectively.
         """
-        style = self.current_line.next_line.line_parts[0].style.copy()
+        style = TEXT_DEFAULTS.copy()
+        for part in self.content:
+            if isinstance(part, dict) and not 'type' in part:
+                style.update(part.get('style', {}))
+                break
 
         if self.list_style is None:
             self.list_style = {}
@@ -788,10 +794,6 @@ class PDFTextBase:
         style.update(self.list_style)
         line_part = PDFTextLinePart(style, self.fonts)
 
-        self.current_line_used_fonts.add(
-            (line_part.state.font_family, line_part.state.font_mode)
-        )
-
         if self.list_indent is None:
             self.list_indent = line_part.get_word_width(str(self.list_text))
         elif not isinstance(self.list_indent, (float, int)):
@@ -801,7 +803,6 @@ class PDFTextBase:
             )
 
         self.list_state = line_part.state
-        self.current_line.max_width -= self.list_indent
 
     def add_line_to_stream(self, line: PDFTextLine, is_last:bool=False) -> None:
         """Function to add a PDFTextLine representing a paragraph line to the
@@ -844,31 +845,22 @@ class PDFTextBase:
                     if self.list_state.size > full_line_height:
                         full_line_height = self.list_state.size
 
-                    style = self.list_style
-                    font_family = style.get('f', None)
-                    if not font_family:
-                        current_line_style = self.current_line.line_parts[0].style
-                        font_family = current_line_style.get('f', None)
-
-                    font = None
-                    if font_family not in STANDARD_FONTS:
-                        mode = 'n'
-                        if 'b' in style:
-                            mode = 'b'
-                        if 'i' in style:
-                            if mode == 'b':
-                                mode += 'i'
-                            else:
-                                mode = 'i'
-
-                        font = self.fonts.get_font(font_family, mode)
+                    self.used_fonts.add(
+                        (self.list_state.font_family, self.list_state.font_mode)
+                    )
+
+                    if self.list_state.font_family in STANDARD_FONTS:
+                        list_text = self.clean_words([str(self.list_text)])
+                    else:
+                        list_text = self.list_state.font.encode_text(
+                            str(self.list_text)
+                        )
 
                     self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
                         round(full_line_height, 3),
                         self.list_state.compare(self.last_state),
-                        (font.encode_text(self.list_text) if
-                            font else self.list_text),
-                        first_indent
+                        list_text,
+                        round(first_indent, 3)
                     )
                 else:
                     self.text += ' {} -{} Td'.format(
-- 
2.43.0


From db4d9559df4b2b638f2ad5119fd678714e7ee6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 06/71] fix: place aligned and indented lines and their
 graphics at one offset

---
 pdfme/text.py | 84 +++++++++++++++++++--------------------------------
 1 file changed, 31 insertions(+), 53 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index e4492c2..5bf8f2b 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -468,7 +468,6 @@ class PDFTextBase:
         self.content = content
         self.finished = False
         self.is_first_line = True
-        self.correct_indent = True
         self.list_setup_done = False
 
     @property
@@ -815,73 +814,52 @@ class PDFTextBase:
         """
         words_width, spaces_width = line.get_widths()
         x = self.list_indent if self.list_text else 0
-        line_height = line.height
-        full_line_height = line_height
+        full_line_height = line.height
         ignore_factor = self.text_align != 'j' or is_last or spaces_width == 0
+        is_paragraph_start = not self.started and self.is_first_line
+        if is_paragraph_start:
+            x += self.indent
         factor_width = self.width - words_width - x
-        adjusted_indent = 0
         if self.text_align in ['r', 'c']:
-            indent = self.width - words_width - spaces_width
+            indent = factor_width - spaces_width
             if self.text_align == 'c':
                 indent /= 2
             x += indent
-            adjusted_indent = indent - self.last_indent
-            self.last_indent = indent
+        # The next line is moved relative to the start of the last one
+        adjusted_indent = round(x - self.last_indent, 3)
+        self.last_indent += adjusted_indent
 
         if not self.started:
             self.started = True
-            if self.is_first_line:
-                factor_width -= self.indent
-                x += self.indent
-                self.is_first_line = False
-
-                first_indent = (
-                    adjusted_indent if self.text_align in ['r', 'c']
-                    else self.indent
-                )
+            self.is_first_line = False
+        else:
+            full_line_height *= self.line_height
 
-                if self.list_text:
-                    first_indent += self.list_indent
-                    if self.list_state.size > full_line_height:
-                        full_line_height = self.list_state.size
+        if is_paragraph_start and self.list_text:
+            if self.list_state.size > full_line_height:
+                full_line_height = self.list_state.size
 
-                    self.used_fonts.add(
-                        (self.list_state.font_family, self.list_state.font_mode)
-                    )
+            self.used_fonts.add(
+                (self.list_state.font_family, self.list_state.font_mode)
+            )
 
-                    if self.list_state.font_family in STANDARD_FONTS:
-                        list_text = self.clean_words([str(self.list_text)])
-                    else:
-                        list_text = self.list_state.font.encode_text(
-                            str(self.list_text)
-                        )
-
-                    self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
-                        round(full_line_height, 3),
-                        self.list_state.compare(self.last_state),
-                        list_text,
-                        round(first_indent, 3)
-                    )
-                else:
-                    self.text += ' {} -{} Td'.format(
-                        round(first_indent, 3), round(full_line_height, 3)
-                    )
+            if self.list_state.font_family in STANDARD_FONTS:
+                list_text = self.clean_words([str(self.list_text)])
             else:
-                first_indent = adjusted_indent
-                if self.list_text:
-                    first_indent += self.list_indent
-                self.text += ' {} -{} Td'.format(
-                    round(first_indent, 3), round(full_line_height, 3)
+                list_text = self.list_state.font.encode_text(
+                    str(self.list_text)
                 )
-        else:
-            if self.correct_indent:
-                self.correct_indent = False
-                adjusted_indent -= self.indent
-
-            full_line_height *= self.line_height
 
-            self.text += ' {} -{} Td'.format(round(adjusted_indent, 3),
-                                        round(full_line_height, 3))
+            self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
+                round(full_line_height, 3),
+                self.list_state.compare(self.last_state),
+                list_text,
+                adjusted_indent
+            )
+        else:
+            self.text += ' {} -{} Td'.format(
+                adjusted_indent, round(full_line_height, 3)
+            )
 
         self.y_ -= full_line_height
 
-- 
2.43.0


From 09df5c2c6e01b229647faf98f4f95384fce602dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 07/71] fix: use the document's line height and indent in
 PDF.text

---
 pdfme/pdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 6e2c145..393610d 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -554,7 +554,7 @@ class PDF:
 
     def _create_text(
         self, content: TextType, width: Number=None, height: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None
     ) -> 'PDFText':
         """Method to create a paragraph.
@@ -645,7 +645,7 @@ class PDF:
     def _text(
         self, content: Union[TextType, 'PDFText'], width: Number=None,
         height: Number=None, x: Number=None, y: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None,
         move: str='bottom'
     ) -> 'PDFText':
@@ -677,8 +677,8 @@ class PDF:
         return pdf_text
 
     def text(
-        self, content: TextType, text_align: str=None, line_height: Number=1.1,
-        indent: Number=0, list_text: str=None, list_indent: Number=None,
+        self, content: TextType, text_align: str=None, line_height: Number=None,
+        indent: Number=None, list_text: str=None, list_indent: Number=None,
         list_style: dict=None
     ) -> None:
         """Method to create and add a paragraph to this document. This method
-- 
2.43.0


From 9b6f8065cbdf1cd40004dc6b7b889876beff8eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 08/71] fix: collapse spaces at the boundary of two parts of a
 line

---
 pdfme/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 5bf8f2b..14e1b0e 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -340,6 +340,7 @@ class PDFTextLine:
                 if self.is_last_word_space:
                     return {'status': 'ignored'}
                 else:
+                    self.is_last_word_space = True
                     self.add_accumulated()
                     return {'status': 'added'}
             else:
-- 
2.43.0


From 6fde137d660d3ce3bf2c93dc2146c1781450c9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 09/71] fix: do not count a trailing space as part of the last
 line

---
 pdfme/text.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 14e1b0e..e5f431d 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -739,6 +739,11 @@ class PDFTextBase:
             self.current_line.line_parts.extend(
                 self.current_line.next_line.line_parts
             )
+            for part in reversed(self.current_line.line_parts):
+                if part.words and part.words[-1] == ' ':
+                    part.pop_word()
+                if part.words:
+                    break
 
         line_height = self.current_line.height
         if self.first_line_added:
-- 
2.43.0


From affc244cbce273fee3ad981ba165b396e4b4eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 10/71] fix: keep the last line of justified paragraphs in its
 box

---
 pdfme/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index e5f431d..cd344d1 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -821,7 +821,7 @@ class PDFTextBase:
         words_width, spaces_width = line.get_widths()
         x = self.list_indent if self.list_text else 0
         full_line_height = line.height
-        ignore_factor = self.text_align != 'j' or is_last or spaces_width == 0
+        ignore_factor = self.text_align != 'j' or spaces_width == 0
         is_paragraph_start = not self.started and self.is_first_line
         if is_paragraph_start:
             x += self.indent
@@ -870,6 +870,9 @@ class PDFTextBase:
         self.y_ -= full_line_height
 
         factor = 1 if ignore_factor else factor_width / spaces_width
+        if is_last:
+            # spaces are not stretched, but shrunk if the line needs it
+            factor = min(factor, 1)
 
         for part in line.line_parts:
             text = self.clean_words(part.words)
-- 
2.43.0


From c7d251acdb1e191e367e5731401eacba742b6bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 11/71] fix: justify the line before the last word of a
 paragraph

---
 pdfme/text.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index cd344d1..7d56746 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -702,7 +702,6 @@ class PDFTextBase:
                 for w in re.split('( +)', words)
                 if w != ''
             ]
-        is_last_part = part_index == len(self.content) - 1
 
         for word_index in range(self.last_word, len(words)):
             word = words[word_index]
@@ -711,9 +710,7 @@ class PDFTextBase:
                 self.last_part_added = part_index
                 self.last_word_added = word_index + 1
             elif ans['status'] == 'finished':
-                continue_ = self.add_current_line(
-                    is_last_part and word_index == len(words) - 1
-                )
+                continue_ = self.add_current_line()
                 ans['new_line'].max_width = self.width - (
                     self.list_indent if self.list_text else 0
                 )
-- 
2.43.0


From 231c869e24785bfef2946622ac30ee252ec02781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 12/71] fix: make the first line of a list paragraph as high as
 its list text

---
 pdfme/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 7d56746..8448101 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -747,6 +747,8 @@ class PDFTextBase:
             line_height *= self.line_height
         else:
             self.first_line_added = True
+            if self.is_first_line and self.list_text:
+                line_height = max(line_height, self.list_state.size)
 
         if line_height + self.current_height > self.height:
             self.last_part = self.last_part_line
-- 
2.43.0


From fc54604ba7a12f5485ad90dd10f065660d9c2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 13/71] fix: keep the destination of a label where its text
 begins

---
 pdfme/pdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 393610d..ebbb922 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -598,6 +598,9 @@ class PDF:
             if len(rects) == 0:
                 continue
             if id_.startswith('$label:'):
+                # a label leads to where its text begins
+                if id_[7:] in self.dests:
+                    continue
                 d = rects[0]
                 x_ref = x + d[0]
                 self.dests[id_[7:]] = [
-- 
2.43.0


From e5a09009b268155270a13150fdcf3efbf131c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 14/71] fix: outline text that continues on another page only
 once

---
 pdfme/pdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index ebbb922..80effb2 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -170,6 +170,7 @@ class PDF:
         self.pages = []
         self.running_sections = []
         self.outlines = []
+        self.outlined = set()
 
         self.base = PDFBase()
         self.root = self.base.add({ 'Type': b'/Catalog'})
@@ -634,6 +635,10 @@ class PDF:
                     )
             elif id_.startswith('$outline:'):
                 outline_data = json.loads(id_[9:])
+                # text that continues on another page is outlined only once
+                if outline_data['label'] in self.outlined:
+                    continue
+                self.outlined.add(outline_data['label'])
                 outline = self.outlines
                 for _ in range(outline_data['level'] - 1):
                     outline = outline[-1].setdefault('children', [])
-- 
2.43.0


From 1678ffe1625e7f731786ba132cec26865369372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 15/71] fix: write text strings beyond latin as UTF-16

---
 pdfme/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index ed8cefb..34418c4 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -89,6 +89,11 @@ def parse_obj(obj: ObjectType) -> bytes:
     elif isinstance(obj, int):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
+        try:
+            obj.encode('latin')
+        except UnicodeEncodeError:
+            # text strings beyond latin are UTF-16 with a byte order mark
+            obj = ('\ufeff' + obj).encode('utf-16-be').decode('latin')
         text = re.sub(r'([()\\])', r'\\\1', obj).replace('\r', '\\r')
         return ('(' + text + ')').encode('latin')
 
-- 
2.43.0


From 237ee46bafb0c47ceaa420ffb6285323a5b7ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 16/71] fix: count the hidden children of closed outlines

---
 pdfme/pdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 80effb2..1689a51 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -1044,7 +1044,8 @@ class PDF:
                     count += count_
                     obj['Count'] = count_
                 else:
-                    obj['Count'] = -1
+                    # a negative count closes this outline
+                    obj['Count'] = -count_
 
         parent['Last'] = obj.id
         return count
-- 
2.43.0


From 23476af442b88b9300698c6dc61666e972c86112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 17/71] fix: sort destinations by their encoded names

---
 pdfme/parser.py | 24 ++++++++++++++++++------
 pdfme/pdf.py    |  4 ++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 34418c4..6c0e757 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -89,15 +89,27 @@ def parse_obj(obj: ObjectType) -> bytes:
     elif isinstance(obj, int):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
-        try:
-            obj.encode('latin')
-        except UnicodeEncodeError:
-            # text strings beyond latin are UTF-16 with a byte order mark
-            obj = ('\ufeff' + obj).encode('utf-16-be').decode('latin')
-        text = re.sub(r'([()\\])', r'\\\1', obj).replace('\r', '\\r')
+        text = encode_str(obj).decode('latin')
+        text = re.sub(r'([()\\])', r'\\\1', text).replace('\r', '\\r')
         return ('(' + text + ')').encode('latin')
 
 
+def encode_str(text: str) -> bytes:
+    """Function to get the bytes of a PDF text string: latin, or else UTF-16
+    with a byte order mark.
+
+    Args:
+        text (str): the text.
+
+    Returns:
+        bytes: the encoded text.
+    """
+    try:
+        return text.encode('latin')
+    except UnicodeEncodeError:
+        return ('\ufeff' + text).encode('utf-16-be')
+
+
 def parse_name(name: str) -> bytes:
     """Function to convert a dict key to the characters of a PDF Name, writing
     the ones that are not regular characters with their #xx code.
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 1689a51..3d03898 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -1004,7 +1004,7 @@ class PDF:
         dests = list(self.dests.keys())
         if len(dests) == 0:
             return
-        dests.sort()
+        dests.sort(key=encode_str)
         self._build_dests_tree(dests, [self.dests[k] for k in dests])
 
     def _build_outlines_tree(
@@ -1085,7 +1085,7 @@ from .content import PDFContent
 from .fonts import PDFFonts
 from .image import PDFImage
 from .page import PDFPage
-from .parser import PDFObject
+from .parser import PDFObject, encode_str
 from .table import PDFTable
 from .text import PDFText
 from .utils import (
-- 
2.43.0


From c1e7409167a0955b9aac2f4a3e5749701b7330da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 18/71] fix: title outlines with the text of their nested parts

---
 pdfme/text.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 8448101..79f45d3 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -1220,6 +1220,21 @@ class PDFText(PDFTextBase):
         self.content.append(text_part)
         return text_part
 
+    def _get_plain_text(self, elements: ContentType) -> str:
+        """Function to get the text of some elements, without its styles.
+
+        Args:
+            elements (str, list, tuple, dict): like the values of the dot key.
+
+        Returns:
+            str: the text of the elements.
+        """
+        if isinstance(elements, dict):
+            elements = [v for k, v in elements.items() if k.startswith('.')][:1]
+        if isinstance(elements, (list, tuple)):
+            return ''.join(self._get_plain_text(e) for e in elements)
+        return str(elements)
+
     def _recursive_content_parse(
         self, content: ContentType, parent_style: dict, ids: list
     ) -> None:
@@ -1288,7 +1303,7 @@ class PDFText(PDFTextBase):
             text_part['ids'].append('$uri:' + uri)
         outline = content.get('outline')
         if isinstance(outline, dict):
-            text = outline.get('text', ''.join(str(e) for e in elements))
+            text = outline.get('text', self._get_plain_text(elements))
             level = outline.get('level', 1)
             if label is None:
                 outline_label = str(uuid4())
-- 
2.43.0


From 097cc74232dc267b6c411ba86065eee6c4f689b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 19/71] fix: accept numbers as elements of content boxes

---
 pdfme/content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 983f1ed..9bc6eea 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -782,7 +782,7 @@ class PDFContentPart:
 
     def parse_element(self, element: ProcessElement) -> dict:
         if not isinstance(element, (dict, str, list, tuple)):
-            return str(element)
+            element = str(element)
         if isinstance(element, (str, list, tuple)):
             return {'.': element}
 
-- 
2.43.0


From 04c2c62ce18e1751663b45c84d81bc2ef0f0f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 20/71] fix: do not leave inherited styles in paragraphs of
 content boxes

---
 pdfme/content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 9bc6eea..058911f 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -856,7 +856,7 @@ class PDFContentPart:
             par_style = {
                 v: style.get(v) for v in PARAGRAPH_PROPERTIES if v in style
             }
-            element['style'] = style.copy()
+            element = dict(element, style=style.copy())
             pdf_text = PDFText(
                 element, self.width, self.max_height, self.x, self.y,
                 fonts=self.p.fonts, pdf=self.p.pdf, **par_style
-- 
2.43.0


From 28853da2a2daaadc94b63f29bd1cf8f292b15815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 21/71] fix: remove lines and fills too when balancing columns

---
 pdfme/content.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 058911f..1553634 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -388,7 +388,7 @@ class PDFContentPart:
         self.delayed = copy(self.section_delayed) # current delayed elements
         self.will_reset = False
         self.resetting = False
-        self.parts_index = len(self.p.parts)
+        self.save_indexes()
 
         self.minim_diff_last = None
         self.minim_diff = None
@@ -649,6 +649,8 @@ class PDFContentPart:
 
         self.will_reset = False
         self.p.parts = self.p.parts[:self.parts_index]
+        self.p.lines = self.p.lines[:self.lines_index]
+        self.p.fills = self.p.fills[:self.fills_index]
         self.go_to_beginning()
 
         if self.minim_diff is None:
@@ -669,6 +671,14 @@ class PDFContentPart:
 
         return True
 
+    def save_indexes(self) -> None:
+        """Function that saves where the parts, lines and fills of this element
+        start, to be able to remove them when this element is reset.
+        """
+        self.parts_index = len(self.p.parts)
+        self.lines_index = len(self.p.lines)
+        self.fills_index = len(self.p.fills)
+
     def go_to_beginning(self) -> None:
         """Function that takes the x and y coordinates of this element to the
         ``min_x`` and ``min_y`` coordinates.
@@ -726,7 +736,7 @@ class PDFContentPart:
                     return ret
                 self.min_y = ret['min_y']
                 self.min_x = ret['min_x']
-                self.parts_index = len(self.p.parts)
+                self.save_indexes()
                 self.go_to_beginning()
                 return 'retry' if children_memory is None else ret
         else:
-- 
2.43.0


From 68edd9b9c322f6a5e9b7975274388a1e51d119ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 22/71] fix: count only tries to fit an element in an empty
 column

---
 pdfme/content.py | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 1553634..7dae0ec 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -945,7 +945,8 @@ class PDFContentPart:
                 })
         else:
             self.y = initial_y
-            if element.setdefault('tries', 0) >= 50:
+            tries = self.count_tries(element)
+            if tries > 50:
                 raise Exception(
                     'Image element could not be fitted in the document (try '
                     'adding "min_height" style property to this image for us'
@@ -953,9 +954,8 @@ class PDFContentPart:
                     ': {}'
                     .format(element)
                 )
-            element['tries'] += 1
             image_place = style.get('image_place', 'flow')
-            ret['delayed'] = element
+            ret['delayed'] = dict(element, tries=tries)
             if image_place == 'normal':
                 ret['next'] = True
             elif image_place == 'flow':
@@ -1082,6 +1082,25 @@ class PDFContentPart:
             self.starting = False
             return {'delayed': None, 'next': False}
 
+    def count_tries(self, element: dict) -> int:
+        """Function that counts the times an image or a group could not be added
+        at the top of a column. Columns that are not empty, or that are
+        shortened to balance them, say nothing about whether it will ever fit.
+
+        Args:
+            element (dict): The image or group that could not be added.
+
+        Returns:
+            int: the number of tries, including this one.
+        """
+        tries = element.get('tries', 0)
+        part = self
+        while part is not None:
+            if part.resetting or not part.starting:
+                return tries
+            part = part.parent
+        return tries + 1
+
     def get_element_styles(self, element: dict, inherited_style: dict):
         keys = [key for key in element.keys() if key.startswith('.')]
 
@@ -1136,6 +1155,7 @@ class PDFContentPart:
             dict: Containing instructions to the caller.
         """
         initial_y = self.y
+        starting, last_bottom = self.starting, self.last_bottom
 
         if not self.starting:
             self.y -=  style.get('margin_top', 0)
@@ -1155,14 +1175,19 @@ class PDFContentPart:
                 element, style, add_element=False, add_top_margin=i != 0
             )
             if not (isinstance(ans, dict) and ans.get('delayed') is None):
-                if group_element.setdefault('tries', 0) >= 50:
+                self.y = initial_y
+                self.starting = starting
+                self.last_bottom = last_bottom
+                tries = self.count_tries(group_element)
+                if tries > 50:
                     raise Exception(
                         'Group element could not be fitted in the document: {}'
                         .format(group_element)
                     )
-                group_element['tries'] += 1
-                self.y = initial_y
-                return {'delayed': group_element, 'next': False, 'flow': True}
+                return {
+                    'delayed': dict(group_element, tries=tries),
+                    'next': False, 'flow': True
+                }
 
         new_images_size = images_size + self.y - self.max_y
         image_ratio = new_images_size / images_size if len(images) else 1
-- 
2.43.0


From 6349bff47afcc162dee4cb56d083a21e4029f57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 23/71] fix: place groups where they were measured, with images
 shrunk to fit

---
 pdfme/content.py | 53 ++++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 7dae0ec..b0c33bb 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -896,7 +896,7 @@ class PDFContentPart:
 
     def process_image(
         self, element: dict, style: dict, add_parts: bool=True,
-        add_top_margin: bool=True
+        add_top_margin: bool=True, image_height: Optional[Number]=None
     ) -> dict:
         """Function that tries to add an image to the current column rectangle,
         and add it to the delayed list if it can't add it.
@@ -904,6 +904,8 @@ class PDFContentPart:
         Args:
             element (dict): The image to be added
             style (dict): The style of the image.
+            image_height (Number, optional): The height of the image, if it's
+                less than the one it has when it's as wide as the column.
 
         Returns:
             dict: Containing instructions to the caller.
@@ -925,7 +927,14 @@ class PDFContentPart:
         min_height = style.get('min_height', float('inf'))
 
         can_add = False
-        if height < self.max_height:
+        if image_height is not None:
+            can_add = min(height, image_height) <= self.max_height
+            if image_height < height:
+                height = image_height
+                new_width = height * pdf_image.width / pdf_image.height
+                x += (width - new_width) / 2
+                width = new_width
+        elif height < self.max_height:
             can_add = True
         elif min_height <= self.max_height:
             can_add = True
@@ -1114,23 +1123,19 @@ class PDFContentPart:
 
     def process_group_element(
         self, element: dict, inherited_style: dict, add_element: bool=False,
-        add_top_margin: bool=True, min_height: Optional[Number] = None
+        add_top_margin: bool=True, image_height: Optional[Number] = None
     ):
         element = self.parse_element(element)
         style, element_style = self.get_element_styles(element, inherited_style)
 
-        if min_height is not None:
-            style['min_height'] = min_height
-
         keys = [key for key in element.keys() if key.startswith('.')]
         if len(keys) > 0 or 'paragraph' in element:
             return self.process_text(
                 element, style, element_style, add_element, add_top_margin
             )
         elif 'image' in element:
-            style['shrink'] = True
             return self.process_image(
-                element, style, add_element, add_top_margin
+                element, style, add_element, add_top_margin, image_height
             )
         elif 'table' in element or 'table_delayed' in element:
             return self.process_table(
@@ -1160,19 +1165,22 @@ class PDFContentPart:
         if not self.starting:
             self.y -=  style.get('margin_top', 0)
 
+        # Images that can be shrunk are first measured as small as possible
         images = {}
         images_size = 0
+        first_y = self.y
 
         for i, element in enumerate(group_element['group']):
             if isinstance(element, dict) and 'image' in element:
                 image_style, _ = self.get_element_styles(element, style)
                 if 'min_height' in image_style:
-                    min_height = image_style['min_height']
-                    images[i] = min_height
-                    images_size += min_height
+                    images[i] = image_style['min_height']
+                    if not image_style.get('shrink', 0):
+                        images_size += images[i]
 
             ans = self.process_group_element(
-                element, style, add_element=False, add_top_margin=i != 0
+                element, style, add_element=False, add_top_margin=i != 0,
+                image_height=images.get(i)
             )
             if not (isinstance(ans, dict) and ans.get('delayed') is None):
                 self.y = initial_y
@@ -1189,18 +1197,23 @@ class PDFContentPart:
                     'next': False, 'flow': True
                 }
 
-        new_images_size = images_size + self.y - self.max_y
-        image_ratio = new_images_size / images_size if len(images) else 1
-        self.y = initial_y
+        # The space left (but for rounding errors) is shared among them
+        image_ratio = 1
+        if images_size > 0:
+            image_ratio += max(0, self.y - self.max_y - 0.001) / images_size
+        self.y = first_y
+        self.starting = starting
+        self.last_bottom = last_bottom
 
         for i, element in enumerate(group_element['group']):
-            min_height = None
-            if i in images:
-                min_height = images[i]
-                min_height *= 1 if style.get('shrink', 0) else image_ratio
+            image_height = images.get(i)
+            if image_height is not None:
+                image_style, _ = self.get_element_styles(element, style)
+                if not image_style.get('shrink', 0):
+                    image_height *= image_ratio
             self.process_group_element(
                 element, style, add_element=True, add_top_margin=i != 0,
-                min_height=min_height
+                image_height=image_height
             )
 
         return {'delayed': None, 'next': False}
-- 
2.43.0


From e54e9a034d2170af75cd957881baee44a8b1783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 24/71] fix: restore the whole state of paragraphs

---
 pdfme/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 79f45d3..6343ace 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -549,8 +549,10 @@ class PDFTextBase:
                 word of the last part that was added the last time method
                 ``run`` was called.
         """
-        self.last_part = last_part
-        self.last_word = last_word
+        self.last_part = self.last_part_line = last_part
+        self.last_word = self.last_word_line = last_word
+        self.is_first_line = last_part == 0 and last_word == 0
+        self.finished = False
 
     def setup(
         self, x: Number=None, y:Number=None, width: Number=None,
-- 
2.43.0


From 9a39331c1f034b97cc1a9b77de24a0d10307fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 25/71] fix: restore the delayed cells in the state of tables

---
 pdfme/table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index ae4f59e..eba005d 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -245,8 +245,10 @@ class PDFTable:
         """
         if current_index is not None:
             self.current_index = current_index
-        elif delayed is not None:
-            self.delayed = delayed
+        if delayed is not None:
+            self.delayed = copy(delayed)
+        self.first_row = self.current_index == 0 and len(self.delayed) == 0
+        self.finished = False
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
-- 
2.43.0


From c2a6d57213a887d6692d8a9be68ac64d0141a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 26/71] fix: content boxes whose state is restored are not
 finished

---
 pdfme/content.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/content.py b/pdfme/content.py
index b0c33bb..8071303 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -289,6 +289,7 @@ class PDFContent:
         self.pdf_content_part.set_state(
             section_element_index, section_delayed, children_memory
         )
+        self.finished = False
 class PDFContentPart:
     """Class that represent a content element.
 
-- 
2.43.0


From 35c6d07603c6a9bb3f9cd65efad08e26001fa0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 27/71] fix: move below tables and content boxes only by their
 height

---
 pdfme/pdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 3d03898..223db5b 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -906,6 +906,7 @@ class PDF:
         Args:
             parts (list, tuple): the iterable just explained.
         """
+        x, y = self.page.x, self.page._y
         for part in parts:
             part = part.copy()
             type_ = part.pop('type')
@@ -913,6 +914,7 @@ class PDF:
                 self._add_text(**part)
             elif type_ == 'image':
                 self.add_image(**part)
+        self.page.x, self.page._y = x, y
 
     def _build_pages_tree(self, page_list:list, first_level:bool=True) -> None:
         """Method to build the PDF pages tree.
-- 
2.43.0


From bbd48daf20806855e775c272c303868f75a290e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 28/71] fix: the position of images is their top, as documented

---
 pdfme/pdf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 223db5b..d6dd57e 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -415,12 +415,14 @@ class PDF:
         if x is not None:
             self.page.x = x
         if y is not None:
-            self.page._y = y
+            self.page.y = y
 
+        # The position of the page's image is its left-bottom corner
+        self.page._y -= height
         self.page.add_image(image_obj.id, width, height)
 
-        if move == 'bottom':
-            self.page.y += height
+        if move != 'bottom':
+            self.page._y += height
         if move == 'next':
             self.page.x += width
 
@@ -913,6 +915,7 @@ class PDF:
             if type_ == 'paragraph':
                 self._add_text(**part)
             elif type_ == 'image':
+                part['y'] = self.page.height - part['y'] - part['height']
                 self.add_image(**part)
         self.page.x, self.page._y = x, y
 
-- 
2.43.0


From a9d621c259e8bea6cb48d42390f806b52f6011e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 29/71] fix: resume nested content boxes where they stopped

---
 pdfme/content.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 8071303..d7d3917 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -387,6 +387,7 @@ class PDFContentPart:
 
         self.element_index = self.section_element_index # current index
         self.delayed = copy(self.section_delayed) # current delayed elements
+        self.partial_children_memory = None
         self.will_reset = False
         self.resetting = False
         self.save_indexes()
@@ -669,6 +670,7 @@ class PDFContentPart:
 
         self.element_index = self.section_element_index
         self.delayed = copy(self.section_delayed)
+        self.partial_children_memory = None
 
         return True
 
@@ -721,13 +723,13 @@ class PDFContentPart:
                     'index': self.element_index,
                     'delayed': copy(self.delayed)
                 }
-                if children_memory is None:
-                    self.children_memory = []
-                    new_children_memory = [new_index]
-                else:
-                    self.children_memory = copy(children_memory)
-                    new_children_memory = copy(children_memory)
-                    new_children_memory.append(new_index)
+                memory = children_memory
+                if memory is None:
+                    # a child could be waiting for the delayed elements
+                    memory = self.partial_children_memory or []
+                self.children_memory = copy(memory)
+                new_children_memory = copy(memory)
+                new_children_memory.append(new_index)
 
                 if self.is_root:
                     return 'interrupt'
@@ -1062,14 +1064,14 @@ class PDFContentPart:
         down_condition2 = self.partial_children_memory is not None
 
         if down_condition1 or down_condition2:
-            child = self.children_memory[-1] if down_condition1 else \
-                self.partial_children_memory[-1]
+            memory = self.partial_children_memory if down_condition2 else \
+                self.children_memory
+            child = memory[-1]
             pdf_content.section_element_index = child['index']
             pdf_content.section_delayed = copy(child['delayed'])
             pdf_content.element_index = child['index']
             pdf_content.delayed = copy(child['delayed'])
-            pdf_content.children_memory = self.children_memory[:-1] \
-                if down_condition1 else self.partial_children_memory[:-1]
+            pdf_content.children_memory = memory[:-1]
 
             self.partial_children_memory = None
 
-- 
2.43.0


From 2c75e78738c06af10fdf63b4d1df033d7d0c38c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 30/71] fix: keep the state of nested content boxes while
 elements are delayed

---
 pdfme/content.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index d7d3917..1741d53 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -717,8 +717,6 @@ class PDFContentPart:
                 self.minim_forward = True
                 return 'break'
             else:
-                self.section_element_index = self.element_index
-                self.section_delayed = copy(self.delayed)
                 new_index = {
                     'index': self.element_index,
                     'delayed': copy(self.delayed)
@@ -726,7 +724,15 @@ class PDFContentPart:
                 memory = children_memory
                 if memory is None:
                     # a child could be waiting for the delayed elements
-                    memory = self.partial_children_memory or []
+                    memory = self.partial_children_memory
+                    if (
+                        memory is None and
+                        self.element_index == self.section_element_index
+                    ):
+                        memory = self.children_memory
+                    memory = memory or []
+                self.section_element_index = self.element_index
+                self.section_delayed = copy(self.delayed)
                 self.children_memory = copy(memory)
                 new_children_memory = copy(memory)
                 new_children_memory.append(new_index)
-- 
2.43.0


From a97a4bfe69f4374139ae47807c32bdc10dadb3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 31/71] fix: keep rows that do not fit inside the height of
 their table

---
 pdfme/table.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index eba005d..f36af8e 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -500,7 +500,10 @@ class PDFTable:
                 else:
                     break
 
-        if cancel:
+        if self.current_index >= len(self.content) and len(self.delayed) == 0:
+            self.finished = True
+
+        if cancel or self.current_height == 0:
             self.parts = []
             self.lines = []
             self.fills = []
@@ -521,9 +524,6 @@ class PDFTable:
             line for vert_line in self.vert_lines for line in vert_line['list']
         )
 
-        if self.current_index >= len(self.content) and len(self.delayed) == 0:
-            self.finished = True
-
     def add_row(self, row: Iterable, is_delayed: bool=False) -> str:
         """Method to add a row to this table.
 
@@ -553,9 +553,10 @@ class PDFTable:
                 continue
 
         if self.first_row:
-            self.first_row = False
-            if self.max_height == 0:
+            if self.max_height == 0 and len(self.delayed) > 0:
+                self.delayed = {}
                 return 'cancel'
+            self.first_row = False
 
         ret = True
         if sum(v['colspan'] for v in self.delayed.values()) == self.cols_count:
@@ -569,7 +570,8 @@ class PDFTable:
         last_border = self.get_border(self.current_index, len(row), True)
         self.process_borders(len(row), last_border, {})
 
-        self.lines.extend(self.top_lines)
+        if ret or self.max_height > 0:
+            self.lines.extend(self.top_lines)
 
         for col in self.heights_mem:
             self.heights_mem[col] -= self.max_height
@@ -820,7 +822,10 @@ class PDFTable:
         else:
             self.delayed[col] = delayed
 
-        real_height += padd_y if real_height>0 else (0 if self.first_row else 4)
+        if real_height > 0:
+            real_height += padd_y
+        elif not self.first_row and self.row_max_height >= 4:
+            real_height += 4
         if rowspan > 0:
             self.heights_mem[col] = real_height
             real_height = 0
-- 
2.43.0


From b794466199bdb6b60efcda4d34e2c6584539a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 32/71] fix: keep merged cells merged where a page break splits
 them

---
 pdfme/table.py | 62 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index f36af8e..902bf4c 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -174,6 +174,7 @@ class PDFTable:
 
         self.cols_count = len(content[0])
         self.delayed = {}
+        self.spans = {}
 
         if widths is not None:
             if not isinstance(widths, (list, tuple)):
@@ -228,10 +229,13 @@ class PDFTable:
             dict: a dict with the state of this table.
         """
         return {
-            'current_index': self.current_index, 'delayed': copy(self.delayed)
+            'current_index': self.current_index,
+            'delayed': copy(self.delayed), 'spans': copy(self.spans)
         }
 
-    def set_state(self, current_index: int=None, delayed: dict=None) -> None:
+    def set_state(
+        self, current_index: int=None, delayed: dict=None, spans: dict=None
+    ) -> None:
         """Method to set the state of this table.
         
         The arguments of this method define the current state of this table,
@@ -242,11 +246,15 @@ class PDFTable:
                 added.
             delayed (dict, optional): a dict with delayed cells that should be
                 added before the next row.
+            spans (dict, optional): a dict with the span, style and position of
+                the cells in the current row.
         """
         if current_index is not None:
             self.current_index = current_index
         if delayed is not None:
             self.delayed = copy(delayed)
+        if spans is not None:
+            self.spans = copy(spans)
         self.first_row = self.current_index == 0 and len(self.delayed) == 0
         self.finished = False
 
@@ -482,7 +490,13 @@ class PDFTable:
         can_continue = True
         if len(self.delayed) > 0:
             can_continue = False
-            row = [self.delayed.get(i) for i in range(self.cols_count)]
+            # the cells of this row that are finished keep their place
+            row = [
+                self.delayed.get(
+                    i, dict(self.spans[i], delayed=None, type='finished')
+                    if i in self.spans else None
+                ) for i in range(self.cols_count)
+            ]
             action = self.add_row(row, True)
             if action == 'continue':
                 self.current_index += 1
@@ -553,8 +567,11 @@ class PDFTable:
                 continue
 
         if self.first_row:
-            if self.max_height == 0 and len(self.delayed) > 0:
+            empty = self.max_height == 0 and \
+                not any(h > 0 for h in self.heights_mem.values())
+            if empty and len(self.delayed) > 0:
                 self.delayed = {}
+                self.spans = {}
                 return 'cancel'
             self.first_row = False
 
@@ -566,6 +583,17 @@ class PDFTable:
                 ret = False
                 break
 
+        if ret:
+            self.spans = {
+                col: span for col, span in self.spans.items()
+                if col in self.rowspan
+            }
+        else:
+            # spanned cells have to fit in the part of the table added so far
+            self.max_height = max(self.max_height, *(
+                self.heights_mem.get(col, 0) for col in range(self.cols_count)
+            ))
+
         self.x_abs = self.x + self.width
         last_border = self.get_border(self.current_index, len(row), True)
         self.process_borders(len(row), last_border, {})
@@ -668,10 +696,11 @@ class PDFTable:
                 self.rowspan.pop(col)
                 if col in self.fills_mem:
                     self.fills_mem[col]['add_later'] = False
-                if self.heights_mem.get(col, 0) > self.max_height:
-                    self.max_height = self.heights_mem[col]
-                if self.colspan == 0:
-                    self.is_rowspan = False
+                height = self.heights_mem.pop(col, 0)
+                if height > self.max_height:
+                    self.max_height = height
+            if self.colspan == 0:
+                self.is_rowspan = False
             can_continue = True
         return can_continue
 
@@ -721,7 +750,7 @@ class PDFTable:
         return element, style, cell_style
 
     def _setup_cell_fill(
-        self, col: int, cell_style: dict, width: Number, rowspan: int
+        self, col: int, cell_style: dict, width: Number, rowspan: int, row: int
     ) -> None:
         """Method to optionally add the fill color in ``cell`style`` to
         attribute ``fills_mem``
@@ -731,12 +760,13 @@ class PDFTable:
             cell_style (dict): the cell style.
             width (Number): the width of the cell.
             rowspan (int): the rowspan of the cell.
+            row (int): the index of the row the cell was added in.
         """
         fill_color = cell_style.get('cell_fill', None)
 
         if fill_color is None:
             fill_color = (
-                self.fills_defs.get(self.current_index, {}).get(col, None)
+                self.fills_defs.get(row, {}).get(col, None)
             )
 
         if fill_color is not None:
@@ -792,8 +822,11 @@ class PDFTable:
             'cell_style': cell_style, 'colspan': colspan_original,
             'rowspan': element.get('rowspan', 1), 'row': row_added
         }
+        self.spans[col] = copy(delayed)
 
-        self._setup_cell_fill(col, cell_style, width + padd_x, rowspan)
+        self._setup_cell_fill(
+            col, cell_style, width + padd_x, rowspan, row_added
+        )
 
         keys = [key for key in element.keys() if key.startswith('.')]
 
@@ -816,6 +849,8 @@ class PDFTable:
             real_height, did_finished = self.process_table(
                 element, x, y, width, height, style, delayed
             )
+        elif self._is_delayed_type(element, 'finished'):
+            did_finished = True
 
         if did_finished:
             self.delayed.pop(col, None)
@@ -824,7 +859,10 @@ class PDFTable:
 
         if real_height > 0:
             real_height += padd_y
-        elif not self.first_row and self.row_max_height >= 4:
+        elif (
+            not self.first_row and self.row_max_height >= 4 and
+            not self._is_delayed_type(element, 'finished')
+        ):
             real_height += 4
         if rowspan > 0:
             self.heights_mem[col] = real_height
-- 
2.43.0


From 137ddb526084619c02773153b28a68de08efd3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 33/71] fix: read ranges of borders and fills as slices of a
 list

---
 pdfme/table.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 902bf4c..506c416 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -308,17 +308,13 @@ class PDFTable:
         Returns:
             iterable: a list of indexes, or a ``range`` object.
         """
-        data = ':' if data == '' else data
+        data = ':' if data.strip() == '' else data
         if ':' in data:
-            parts = data.split(':')
-            num = 0 if parts[0].strip() == '' else int(parts[0])
-            parts[0] = num if num >= 0 else count + num
-            if len(parts) > 1:
-                num = count if parts[1].strip() == '' else int(parts[1])
-                parts[1] = num if num >= 0 else count + num
-            if len(parts) > 2:
-                parts[2] = 1 if parts[2].strip() == '' else int(parts[2])
-            return range(*parts)
+            parts = [
+                None if part.strip() == '' else int(part)
+                for part in data.split(':')
+            ]
+            return range(count)[slice(*parts)]
         else:
             return [
                 count + int(i) if int(i) < 0 else int(i)
-- 
2.43.0


From 5e3449d5b7178d0202c600715eea32740eb802c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 34/71] fix: lay out groups in table cells

---
 pdfme/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index 506c416..0b54854 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -801,6 +801,8 @@ class PDFTable:
             return True
 
         element, style, cell_style = self.get_cell_style(element)
+        if 'group' in element:
+            element['content'] = [{'group': element.pop('group')}]
 
         colspan_original = element.get('colspan', 1)
         self.colspan = colspan_original - 1
-- 
2.43.0


From 57f38f7d30d913e126e792edcdab919aada1ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 35/71] fix: let fills overwrite the default cell fill of
 tables

---
 pdfme/table.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 0b54854..ead5c73 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -733,7 +733,8 @@ class PDFTable:
             keys = [key for key in element.keys() if key.startswith('.')]
             if len(keys) > 0:
                 style.update(parse_style_str(keys[0][1:], self.fonts))
-            style.update(process_style(element.get('style'), self.pdf))
+            own_style = process_style(element.get('style'), self.pdf)
+            style.update(own_style)
             cell_style = {}
             attr = 'cell_margin'
             for side in ('top', 'right', 'bottom', 'left'):
@@ -741,7 +742,9 @@ class PDFTable:
                     attr + '_' + side, style.get(attr, None)
                 )
             style.pop(attr, None)
-            cell_style['cell_fill'] = style.pop('cell_fill', None)
+            # the default fill of the table comes after its fills
+            style.pop('cell_fill', None)
+            cell_style['cell_fill'] = own_style.get('cell_fill', None)
         element = copy(element)
         return element, style, cell_style
 
@@ -762,7 +765,9 @@ class PDFTable:
 
         if fill_color is None:
             fill_color = (
-                self.fills_defs.get(row, {}).get(col, None)
+                self.fills_defs.get(row, {}).get(
+                    col, self.style.get('cell_fill', None)
+                )
             )
 
         if fill_color is not None:
-- 
2.43.0


From 4ae1ef82a19b920959d16a90befeaa4b76ef9a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 36/71] fix: draw no borders and fills of rows that do not fit
 at all

---
 pdfme/table.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index ead5c73..689a7fe 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -557,6 +557,7 @@ class PDFTable:
         self.top_lines_interrupted = True
         self.is_rowspan = False
         self.y_abs = self.y - self.current_height
+        v_lines = [(len(v['list']), v['interrupted']) for v in self.vert_lines]
         for col, element in enumerate(row):
             move_next = self.add_cell(col, element, is_delayed)
             if move_next:
@@ -596,6 +597,11 @@ class PDFTable:
 
         if ret or self.max_height > 0:
             self.lines.extend(self.top_lines)
+        else:
+            # nothing of this row fits, so none of its borders are needed
+            for v_line, (count, interrupted) in zip(self.vert_lines, v_lines):
+                del v_line['list'][count:]
+                v_line['interrupted'] = interrupted
 
         for col in self.heights_mem:
             self.heights_mem[col] -= self.max_height
@@ -604,7 +610,8 @@ class PDFTable:
             fill['height'] += self.max_height
             if not fill.get('add_later', False) or not ret:
                 fill['y'] -= fill['height']
-                self.fills.append(fill)
+                if fill['height'] > 0:
+                    self.fills.append(fill)
                 self.fills_mem.pop(col)
 
         self.current_height += self.max_height
-- 
2.43.0


From ed16c966cce74974f2e3c7b0b533c3b8c31c58e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 37/71] fix: accept margins given as a string of one number or
 as a tuple of three

---
 pdfme/utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 9959c01..9aacf71 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -111,16 +111,13 @@ def parse_margin(margin: MarginType) -> dict:
         return margin
 
     if isinstance(margin, str):
-        margin = re.split(',| ', margin)
-        if len(margin) == 1:
-            margin = float(margin)
-        else:
-            margin = [float(x) for x in margin]
+        margin = [float(x) for x in re.split(r'[,\s]+', margin.strip())]
 
     if isinstance(margin, (int, float)):
         margin = [margin] * 4
 
     if isinstance(margin, (list, tuple)):
+        margin = list(margin)
         if len(margin) == 0:
             margin = [0] * 4
         elif len(margin) == 1:
-- 
2.43.0


From 1131dc1e2bde0e39b44baea82e231d1aefe626bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 38/71] fix: scale the values of 16 bits PNG images

---
 pdfme/image.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/image.py b/pdfme/image.py
index e45d28f..18bae6d 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -160,7 +160,11 @@ class PDFImage:
         """
         from PIL import Image  # type: ignore
 
-        im = Image.open(bytes_).convert("RGB")
+        im = Image.open(bytes_)
+        if im.mode.startswith("I"):
+            # conversions of 16 bits images don't scale their values
+            im = im.convert("I").point(lambda value: value * (1 / 257)).convert("L")
+        im = im.convert("RGB")
         bytes_io = BytesIO()
         im.save(bytes_io, "JPEG")
         bytes_io.seek(0)
-- 
2.43.0


From 96fb1321e3e08ef8af308a0b25df91e7cf393ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 39/71] fix: accept fill bytes before the markers of JPEG
 images

---
 pdfme/image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/image.py b/pdfme/image.py
index 18bae6d..74f9174 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -94,6 +94,9 @@ class PDFImage:
         try:
             while True:
                 markerHigh, markerLow = struct.unpack("BB", bytes_.read(2))
+                while markerHigh == 0xFF and markerLow == 0xFF:
+                    # markers can have any number of fill bytes before them
+                    (markerLow,) = struct.unpack("B", bytes_.read(1))
                 if markerHigh != 0xFF or markerLow < 0xC0:
                     raise SyntaxError("No JPEG marker found")
                 elif markerLow == 0xDA:
-- 
2.43.0


From 05500ec16f6f33d4a64aa8bdbac9e755d3957c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 40/71] fix: do not invert the colors of CMYK JPEG images

---
 pdfme/image.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfme/image.py b/pdfme/image.py
index 74f9174..94b48f7 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -91,6 +91,7 @@ class PDFImage:
             bytes_ (BufferedIOBase): A file-like object containing the
                 image.
         """
+        inverted = False
         try:
             while True:
                 markerHigh, markerLow = struct.unpack("BB", bytes_.read(2))
@@ -110,6 +111,8 @@ class PDFImage:
                 else:
                     (data_size,) = struct.unpack(">H", bytes_.read(2))
                     data = bytes_.read(data_size - 2) if data_size > 2 else b""
+                    if markerLow == 0xEE and data.startswith(b"Adobe"):
+                        inverted = True
                     if (
                         (markerLow >= 0xC0 and markerLow <= 0xC3)
                         or (markerLow >= 0xC5 and markerLow <= 0xC7)
@@ -148,6 +151,9 @@ class PDFImage:
             "__skip_filter__": True,
             "__stream__": image_data,
         }
+        if inverted and colspace == b"/DeviceCMYK":
+            # CMYK images with this marker hold inverted values
+            self.pdf_obj["Decode"] = [1, 0, 1, 0, 1, 0, 1, 0]
 
     def parse_png(self, bytes_: BinaryIO) -> None:
         """Method to convert a PNG image to a JPEG image and later parse it as
-- 
2.43.0


From 46369383673c59570f9a0e44840d158dafbe89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 41/71] fix: accept ranges of pages without an end or a step

---
 pdfme/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 9aacf71..444c0eb 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -1,4 +1,5 @@
 import re
+import sys
 from typing import Any, Iterable, Union
 
 page_sizes = {
@@ -405,13 +406,12 @@ def parse_range_string(range_str: str) -> MuiltiRange:
             index = int(range_parts[0].strip())
             multi_range.add(index, index + 1)
         else:
-            first = range_parts[0].strip()
-            range_parts[0] = 0 if first == '' else int(first)
-            if len(range_parts) > 1:
-                range_parts[1] = int(range_parts[1].strip())
-            if len(range_parts) > 2:
-                range_parts[2] = int(range_parts[2].strip())
-            multi_range.add(*range_parts)
+            # the same defaults as in python slices
+            defaults = (0, sys.maxsize, 1)
+            multi_range.add(*(
+                default if value.strip() == '' else int(value.strip())
+                for value, default in zip(range_parts, defaults)
+            ))
 
     return multi_range
 
-- 
2.43.0


From 7b38df8ba745d5ec239ef14f7041af9ac9f4ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 42/71] fix: layout of a section or page range not left in
 later pages

---
 pdfme/document.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index d7881f9..e1fb5e9 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -171,6 +171,12 @@ class PDFDocument:
             **page_args, **style_args
         )
 
+        # layout of the pages whose sections don't define their own
+        self.default_page_args = dict(
+            page_size=(self.pdf.page_width, self.pdf.page_height),
+            rotate_page=self.pdf.rotate_page, margin=self.pdf.margin
+        )
+
         self.style = style
 
         self.pdf.context.update(context)
@@ -309,9 +315,10 @@ class PDFDocument:
             section, self.width, self.height, self.x, self.y
         )
 
-        section_page_args = {
+        section_page_args = self.default_page_args.copy()
+        section_page_args.update({
             k: section_style[k] for k in PAGE_PROPS if k in section_style
-        }
+        })
 
         while True:
             page_n = len(self.pdf.pages)
-- 
2.43.0


From 3692c55593cef7233eb3d1c8cb25eadb6c187033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 43/71] fix: add the running sections in the order they are
 listed

---
 pdfme/document.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index e1fb5e9..cec321e 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -325,7 +325,9 @@ class PDFDocument:
 
             page_args = section_page_args.copy()
 
-            running_sections = set(section.get('running_sections', []))
+            running_sections = list(
+                dict.fromkeys(section.get('running_sections', []))
+            )
 
             for range_dict in self.per_page:
                 if page_n in range_dict['pages']:
@@ -337,9 +339,13 @@ class PDFDocument:
                         })
                     if 'running_sections' in range_dict:
                         per_page_rs = range_dict['running_sections']
-                        running_sections -= set(per_page_rs.get('exclude', []))
-                        running_sections.update(
-                            set(per_page_rs.get('include', []))
+                        exclude = per_page_rs.get('exclude', [])
+                        running_sections = [
+                            rs for rs in running_sections if rs not in exclude
+                        ]
+                        running_sections.extend(
+                            rs for rs in per_page_rs.get('include', [])
+                            if rs not in running_sections
                         )
 
             self.pdf.setup_page(**page_args)
-- 
2.43.0


From 4231103763dd5720153ddfdf49f368e1666b0887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:12 +0000
Subject: [PATCH 44/71] fix: accept None in the position and size of running
 sections

---
 pdfme/document.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index cec321e..09c74a9 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -258,7 +258,11 @@ class PDFDocument:
         """
         self.pdf.running_sections = []
         for name in running_sections:
-            section = copy(self.running_sections[name])
+            # keys that are None are the same as keys not defined
+            section = {
+                k: v for k, v in copy(self.running_sections[name]).items()
+                if v is not None
+            }
 
             if section.get('width') in ['left', 'right']:
                 section['width'] = margin[section.get('width')]
-- 
2.43.0


From 4283bb19ac38961685ff2606d962fd660cc26be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 45/71] fix: accept named styles in footnotes

---
 pdfme/document.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 09c74a9..9603525 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -466,10 +466,10 @@ class PDFDocument:
         content = {'style': '$footnotes', 'content': []}
         for index, footnote in enumerate(page_footnotes):
             footnote = copy(footnote)
-            style = footnote.setdefault('style', {})
-            style.update(dict(
+            footnote['style'] = dict(
+                process_style(footnote.get('style'), self.pdf),
                 list_text=str(index + 1) + ' ', list_style='$footnote'
-            ))
+            )
             content['content'].append(footnote)
 
         footnote_obj = self.pdf._create_content(
-- 
2.43.0


From 183475db2e208a97ed355895a73a3beb86d4716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 46/71] fix: footnotes and their marks agree when contents make
 room for them

The footnotes found with the contents in a smaller rectangle can be others or
have other numbers than the ones found first, and be higher than their space.
---
 pdfme/document.py | 123 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 90 insertions(+), 33 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 9603525..703c470 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -390,39 +390,96 @@ class PDFDocument:
                 'children_memory': []
             }
 
-        self.section.run(height=self.height)
-        footnotes_obj = self._process_footnotes()
-
-        if footnotes_obj is None:
-            self.pdf._add_graphics([*self.section.fills,*self.section.lines])
-            self.pdf._add_parts(self.section.parts)
-            self.pdf.page._y -= self.section.current_height
-        else:
-            footnotes_height = footnotes_obj.current_height
-            if footnotes_height >= self.height - self.footnotes_margin - 20:
+        footnotes_obj = self._run_section(section_state, 0)
+        if footnotes_obj is not None:
+            # The contents make room for their footnotes: the space needed is
+            # between the one that is too small and the one that is enough.
+            too_small = 0
+            enough = max_height = self.height - self.footnotes_margin - 20
+            height = footnotes_obj.current_height
+            while enough - too_small > 5:
+                if not too_small < height < enough:
+                    height = (too_small + enough) / 2
+                footnotes_obj = self._run_section(section_state, height)
+                needed = 0 if footnotes_obj is None \
+                    else footnotes_obj.current_height
+                if needed > height:
+                    too_small = height
+                else:
+                    enough = height
+                    too_small = max(too_small, needed)
+                height = needed
+
+            # The numbers of the marks have to be the ones of the footnotes.
+            numbered = None
+            while footnotes_obj is not None and (
+                footnotes_obj.current_height > enough or numbered is None or
+                self.page_footnotes != numbered[:len(self.page_footnotes)]
+            ):
+                if numbered is not None:
+                    enough += 1
+                if enough > max_height:
+                    raise Exception(
+                        "footnotes are very large and don't fit in one page"
+                    )
+                numbered = self.page_footnotes
+                footnotes_obj = self._run_section(section_state, enough)
+
+            if footnotes_obj is None and self._is_empty_page():
                 raise Exception(
                     "footnotes are very large and don't fit in one page"
                 )
-            new_height = self.height - footnotes_obj.current_height \
-                - self.footnotes_margin
 
-            if section_state is not None:
-                self.section.set_state(**section_state)
-                self.section.finished = False
-            self.pdf._content(self.section, height=new_height)
+        self.pdf._add_graphics([*self.section.fills,*self.section.lines])
+        self.pdf._add_parts(self.section.parts)
+        self.pdf.page._y -= self.section.current_height
 
-            footnotes_obj = self._process_footnotes()
+        if footnotes_obj is not None:
+            self.pdf.page._y = self.pdf.margin['bottom'] \
+                + footnotes_obj.current_height
+            self.pdf.page.x = self.x
+
+            x_line = round(self.pdf.page.x, 3)
+            y_line = round(self.pdf.page._y + self.footnotes_margin/2, 3)
+            self.pdf.page.add(' q 0 G 0.5 w {} {} m {} {} l S Q'.format(
+                x_line, y_line, x_line + 150, y_line
+            ))
+            self.pdf._content(footnotes_obj, height=self.height)
 
-            if footnotes_obj is not None:
-                self.pdf.page._y = self.pdf.margin['bottom'] + footnotes_height
-                self.pdf.page.x = self.x
+    def _run_section(
+        self, section_state: dict, footnotes_height: 'Number'
+    ) -> 'PDFContent':
+        """Method to arrange the contents of the section from the state passed
+        as argument in the current page, leaving a space for its footnotes.
 
-                x_line = round(self.pdf.page.x, 3)
-                y_line = round(self.pdf.page._y + self.footnotes_margin/2, 3)
-                self.pdf.page.add(' q 0 G 0.5 w {} {} m {} {} l S Q'.format(
-                    x_line, y_line, x_line + 150, y_line
-                ))
-                self.pdf._content(footnotes_obj, height=self.height)
+        Args:
+            section_state (dict): the state of the section before this page.
+            footnotes_height (int, float): the height of the footnotes.
+
+        Returns:
+            PDFContent: object containing the footnotes of these contents.
+        """
+        height = self.height
+        if footnotes_height > 0:
+            height -= footnotes_height + self.footnotes_margin
+        if self.section.pdf_content_part is not None:
+            self.section.set_state(**section_state)
+        self.section.finished = False
+        self.section.run(height=height)
+        return self._process_footnotes()
+
+    def _is_empty_page(self) -> bool:
+        """Method that tells whether nothing of an unfinished section fitted in
+        the current page.
+
+        Returns:
+            bool: whether the current page has no contents.
+        """
+        return not self.section.finished and not self.section.fills \
+            and not self.section.lines and all(
+                part['type'] == 'paragraph' and part['text_stream'] == ''
+                for part in self.section.parts
+            )
 
     def _check_footnote(self, ids: dict, page_footnotes: list) -> None:
         """Method that extract the footnotes from the ids passed as argument,
@@ -431,14 +488,14 @@ class PDFDocument:
         Args:
             ids (dict): the ids list.
             page_footnotes (list): the list of the page footnotes to save the
-                footnotes found in the ids.
+                indexes of the footnotes found in the ids.
         """
         for id_, rects in ids.items():
             if len(rects) == 0:
                 continue
             if id_.startswith('$footnote:'):
                 index = int(id_[10:])
-                page_footnotes.append(self.footnotes[index])
+                page_footnotes.append(index)
                 self.pdf.context[id_] = len(page_footnotes)
 
     def _check_footnotes(self, page_footnotes: list) -> None:
@@ -447,7 +504,7 @@ class PDFDocument:
 
         Args:
             page_footnotes (list): the list of the page footnotes to save the
-                footnotes found in the ids.
+                indexes of the footnotes found in the ids.
         """
         for part in self.section.parts:
             if part['type'] == 'paragraph':
@@ -458,14 +515,14 @@ class PDFDocument:
         the current page.
 
         Args:
-            page_footnotes (list): the list of the page footnotes
+            page_footnotes (list): the list of the indexes of the page footnotes
 
         Returns:
             PDFContent: object containing the footnotes.
         """
         content = {'style': '$footnotes', 'content': []}
-        for index, footnote in enumerate(page_footnotes):
-            footnote = copy(footnote)
+        for index, footnote_index in enumerate(page_footnotes):
+            footnote = copy(self.footnotes[footnote_index])
             footnote['style'] = dict(
                 process_style(footnote.get('style'), self.pdf),
                 list_text=str(index + 1) + ' ', list_style='$footnote'
@@ -486,7 +543,7 @@ class PDFDocument:
         Returns:
             PDFContent: object containing the footnotes.
         """
-        page_footnotes = []
+        self.page_footnotes = page_footnotes = []
         self._check_footnotes(page_footnotes)
         if len(page_footnotes) == 0:
             return None
-- 
2.43.0


From 63dcd5d9b4a8c9575b97ce48a00d60672ccaecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 47/71] fix: use copies of the sections to add the footnotes to
 them

---
 pdfme/document.py | 3 ++-
 pdfme/utils.py    | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 703c470..60e3e36 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -194,7 +194,8 @@ class PDFDocument:
             new_range_dict['pages'] = parse_range_string(range_dict['pages'])
             self.per_page.append(new_range_dict)
 
-        self.sections = document.get('sections', [])
+        # a copy, because footnotes are going to be modified
+        self.sections = [copy(s) for s in document.get('sections', [])]
 
         self.x = self.y = self.width = self.height = 0
 
diff --git a/pdfme/utils.py b/pdfme/utils.py
index 444c0eb..d3c3179 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -371,6 +371,8 @@ def copy(obj: Any) -> Any:
     """
     if isinstance(obj, list):
         return [copy(el) for el in obj]
+    elif isinstance(obj, tuple):
+        return tuple(copy(el) for el in obj)
     elif isinstance(obj, dict):
         return {k: copy(v) for k, v in obj.items()}
     else:
-- 
2.43.0


From 3cb510c86c1811bb5376d6a58737ab1f2241a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 48/71] fix: do not change the style of the paragraph passed by
 the user

---
 pdfme/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index d6dd57e..264a81d 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -512,7 +512,7 @@ class PDF:
             if len(style_str) > 0:
                 style.update(parse_style_str(style_str[0], self.fonts))
             style.update(process_style(content.get('style'), self))
-            content['style'] = style
+            content = dict(content, style=style)
         return content
 
     def _position_and_size(
-- 
2.43.0


From b3b89fcc627dc3906602ab45422366440b7c70a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 49/71] fix: save and restore the state of content boxes before
 their first run

---
 pdfme/content.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 1741d53..c453b74 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -242,14 +242,8 @@ class PDFContent:
         self.fills = []
         self.lines = []
         self.parts = []
-        content_part = self.pdf_content_part
-        if content_part is None:
-            self.pdf_content_part = content_part = PDFContentPart(
-                self.content, self, self.x, self.width, self.min_y, self.max_y,
-                last=True
-            )
-        else:
-            content_part.setup(self.x, self.width, self.min_y, self.max_y)
+        content_part = self._get_content_part()
+        content_part.setup(self.x, self.width, self.min_y, self.max_y)
 
         ret = content_part.run()
         self.current_height = content_part.min_y - (
@@ -258,6 +252,22 @@ class PDFContent:
         if ret == 'continue':
             self.finished = True
 
+    def _get_content_part(self) -> 'PDFContentPart':
+        """Method to get the root element of this content box, that is created
+        the first time it is needed.
+
+        Returns:
+            PDFContentPart: the root element of this content box.
+        """
+        if self.pdf_content_part is None:
+            # the root element saves where its parts, lines and fills start
+            self.fills, self.lines, self.parts = [], [], []
+            self.pdf_content_part = PDFContentPart(
+                self.content, self, self.x, self.width, self.min_y, self.max_y,
+                last=True
+            )
+        return self.pdf_content_part
+
     def get_state(self) -> dict:
         """Method to get the current state of this content box. This can be used
         later in method :meth:`pdfme.content.PDFContent.set_state` to restore
@@ -266,7 +276,7 @@ class PDFContent:
         Returns:
             dict: a dict with the state of this content box.
         """
-        return self.pdf_content_part.get_state()
+        return self._get_content_part().get_state()
 
     def set_state(
         self, section_element_index: int=None, section_delayed: list=None,
@@ -286,7 +296,7 @@ class PDFContent:
                 a content box, this list says what the indexes of the nested
                 content boxes inside this content box are.
         """
-        self.pdf_content_part.set_state(
+        self._get_content_part().set_state(
             section_element_index, section_delayed, children_memory
         )
         self.finished = False
-- 
2.43.0


From afcfeb889db1665574a0817bf375be984f174681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 50/71] fix: accept colors with commas and spaces between their
 numbers

---
 pdfme/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/color.py b/pdfme/color.py
index 4809c0c..4ca7681 100644
--- a/pdfme/color.py
+++ b/pdfme/color.py
@@ -245,7 +245,7 @@ def parse_color(color: ColorType) -> list:
             else:
                 return [int(color[i:2+i], 16)/255 for i in range(1,7,2)]
         else:
-            color = re.split(',| ', color)
+            color = re.split(r'[,\s]+', color.strip())
 
     if not isinstance(color, (list, tuple)):
         raise TypeError('Invalid color value type: {}'.format(type(color)))
-- 
2.43.0


From 840f599743e19e144dc58678f9d1f3443b8087ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 51/71] fix: ignore the alpha of colors with four numbers

---
 pdfme/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/color.py b/pdfme/color.py
index 4ca7681..d0ae7cf 100644
--- a/pdfme/color.py
+++ b/pdfme/color.py
@@ -263,7 +263,7 @@ def parse_color(color: ColorType) -> list:
             raise TypeError("Invalid color value type: {}".format(type(v)))
     elif len(color) in [3,4]:
         try:
-            return [float(c) for c in color[:4]]
+            return [float(c) for c in color][:3]
         except:
             raise TypeError("Couldn't parse numeric color value: {}".format(color))
 
-- 
2.43.0


From 6084f4a6ea590a73f9ad103e867946df951a8f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 52/71] fix: reject malformed colors and rises

---
 pdfme/color.py | 27 +++++++++++++++++++++++----
 pdfme/utils.py |  4 +++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/pdfme/color.py b/pdfme/color.py
index d0ae7cf..70f6cf9 100644
--- a/pdfme/color.py
+++ b/pdfme/color.py
@@ -1,4 +1,5 @@
 import re
+from math import isfinite
 from typing import Union
 
 colors = {
@@ -235,8 +236,7 @@ def parse_color(color: ColorType) -> list:
         elif color in colors:
             return colors[color]
         elif color[0] == '#' and len(color) in [4,5,7,9]:
-            try: int(color[1:], 16)
-            except:
+            if not re.fullmatch('#[0-9a-fA-F]+', color):
                 raise TypeError("Couldn't parse hexagesimal color value: {}".format(color))
 
             n = len(color)
@@ -254,7 +254,7 @@ def parse_color(color: ColorType) -> list:
         v = color[0]
         if isinstance(v, str):
             try:
-                return [float(v)]
+                return [_parse_number(v)]
             except:
                 raise TypeError("Couldn't parse numeric color value: {}".format(v))
         elif isinstance(v, (int, float)):
@@ -263,8 +263,27 @@ def parse_color(color: ColorType) -> list:
             raise TypeError("Invalid color value type: {}".format(type(v)))
     elif len(color) in [3,4]:
         try:
-            return [float(c) for c in color][:3]
+            return [_parse_number(c) for c in color][:3]
         except:
             raise TypeError("Couldn't parse numeric color value: {}".format(color))
+    else:
+        raise TypeError('Colors must have 1, 3 or 4 numbers: {}'.format(color))
+
+def _parse_number(value: Union[int, float, str]) -> float:
+    """Function to parse one of the numbers of a color.
+
+    Args:
+        value (int, float, str): The number.
+
+    Raises:
+        ValueError: If the value is not a finite number.
+
+    Returns:
+        float: the number.
+    """
+    number = float(value)
+    if not isfinite(number):
+        raise ValueError('Invalid number: {}'.format(value))
+    return number
 
 from .utils import copy
diff --git a/pdfme/utils.py b/pdfme/utils.py
index d3c3179..3361d73 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -226,7 +226,9 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         ' {}'.format(value)
                     )
             elif attr == 'r':
-                try: style['r'] = float(value)
+                try:
+                    style['r'] = float(value)
+                    int(style['r']) # not possible if it is not finite
                 except:
                     raise ValueError(
                         'Style element value for "r" is wrong:'
-- 
2.43.0


From 29d98d6f269b82dcfc606461ed135801fb4ccdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 53/71] fix: draw TrueType text unescaped and with the font it
 was measured with

---
 pdfme/text.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 6343ace..c9b215f 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -938,21 +938,10 @@ class PDFTextBase:
             self.last_factor = tw
 
         if text != '':
-            style = part.style
-            if ((font_family := style.get('f', None)) and 
-                font_family not in STANDARD_FONTS):
-            
-                mode = 'n'
-                if 'b' in style:
-                    mode = 'b'
-                if 'i' in style:
-                    if mode == 'b':
-                        mode += 'i'
-                    else:
-                        mode = 'i'
-
-                font = part.fonts.get_font(font_family, mode)
-                stream += ' ({})Tj'.format(font.encode_text(text))
+            if part.state.font_family not in STANDARD_FONTS:
+                stream += ' ({})Tj'.format(
+                    part.state.font.encode_text(''.join(part.words))
+                )
             else:
                 stream += ' ({})Tj'.format(text)
         return stream
-- 
2.43.0


From b8e4953282118602afb402f1724a936295522609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 54/71] fix: escape the carriage returns of glyph codes

---
 pdfme/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 3361d73..47d0ae5 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -439,7 +439,9 @@ def escape_string(text):
     Returns:
         str: Escaped text.
     '''
-    return text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+    text = text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+    # an unescaped end of line would be read as \n
+    return text.replace('\r', '\\r')
 
 from .color import PDFColor
 from .fonts import PDFFonts, PDFFont
-- 
2.43.0


From e7f318232436135d64f02a82f71e87157ae8cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 55/71] fix: encode glyph codes in the range of the surrogates

---
 pdfme/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 47d0ae5..fcfa5d1 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -428,7 +428,7 @@ def as_hex(text: str) -> str:
     Returns:
         str: The transformed text.
     """
-    return escape_string(text.encode('UTF-16-BE').decode('latin'))
+    return escape_string(text.encode('UTF-16-BE', 'surrogatepass').decode('latin'))
 
 def escape_string(text):
     '''Takes in a text and returns all special characters escaped.
-- 
2.43.0


From 51817e2d2c3b965038ef7c671821e5bb9e78f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 56/71] fix: load registered fonts in every document and mode
 that uses them

---
 pdfme/fonts.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 68ad665..5db8317 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -80,7 +80,6 @@ class PDFFont(abc.ABC):
     """
 
     registered_fonts = {}
-    loaded_fonts = []
 
     def __init__(self, ref: str) -> None:
         self._ref = ref
@@ -436,11 +435,10 @@ class PDFFonts:
         else:
             font_type = (font_family, mode)
             if font_type in PDFFont.registered_fonts:
-                if font_type not in PDFFont.loaded_fonts:
+                if mode not in self.fonts.get(font_family, {}):
                     self.load_font(PDFFont.registered_fonts[font_type],
                         font_family,
                         mode)
-                    PDFFont.loaded_fonts.append(font_type)
                 family = self.fonts[font_family]
             else:
                 raise ValueError('Unknown font family requested!')
@@ -457,9 +455,7 @@ class PDFFonts:
                 ``n``, ``b``, ``i`` or ``bi``.
         """
         font = PDFTrueTypeFont('F'+str(self.index), path)
-        if not font_family in self.fonts:
-            self.fonts[font_family] = {'n': font}
-        self.fonts[font_family][mode] = font
+        self.fonts.setdefault(font_family, {})[mode] = font
         self.index += 1
 
 from .parser import PDFObject
-- 
2.43.0


From ea5634a75d315656276aa81c9b9dc5c06b54a3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 57/71] fix: take the name of a TrueType font from its
 PostScript name

---
 pdfme/fonts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 5db8317..3cd5d8a 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -1,4 +1,5 @@
 import abc
+import re
 from io import BytesIO
 from pathlib import Path
 
@@ -273,7 +274,9 @@ class PDFTrueTypeFont(PDFFont):
         Returns:
             dict: dict representing this font's "font descriptor".
         """
-        self._base_font = self.font['name'].names[6].toStr()
+        name = self.font['name'].getDebugName(6) or Path(self.filename).stem
+        # only the characters allowed in a PostScript name
+        self._base_font = re.sub(r'[^!-~]|[][(){}<>/%#]', '', name) or 'Font'
         head = self.font["head"]
         self.units_per_em = head.unitsPerEm
         scale = self.scale = 1000 / self.units_per_em
-- 
2.43.0


From 80b5c5ba3249f93b7dc36737f8bc7e5a54922e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 58/71] fix: load TrueType fonts without the table OS/2

---
 pdfme/fonts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 3cd5d8a..1705983 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -309,7 +309,7 @@ class PDFTrueTypeFont(PDFFont):
             if hhea is None:
                 ascent = yMax
                 descent = yMin
-            capHeight = self.ascent
+            capHeight = ascent
 
         stemV = 50 + int(pow((usWeightClass / 65.0),2))
 
-- 
2.43.0


From 3b313b0fab08dcb297631770e982d5eaf96484e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 59/71] fix: write characters beyond the BMP as UTF-16 in the
 ToUnicode map

---
 pdfme/fonts.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 1705983..3f6c3c3 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -38,17 +38,13 @@ STANDARD_FONTS = {
 
 def get_tounicode_cmap(cmap_mappings):
     '''Method returns cmap for Unicode mappings.'''
-    def cmap_hex_format(hex_str: str) -> str:
-        if hex_str.startswith('0x'):
-            hex_str = hex_str[2:]
-        if len(hex_str) != 4:
-            hex_str = hex_str.zfill(4)
-        return f'<{hex_str.upper()}>'
-
     mappings = []
     for (cid, gid) in cmap_mappings.items():
         mappings.append(
-            f'{cmap_hex_format(hex(int(gid)))} {cmap_hex_format(hex(int(cid)))}')
+            '<{:04X}> <{}>'.format(
+                gid, chr(cid).encode('UTF-16-BE', 'surrogatepass').hex().upper()
+            )
+        )
 
     return f'''/CIDInit /ProcSet findresource begin
         12 dict begin
-- 
2.43.0


From 3e1429a3ce15b46559aaf13e981a15c6140cecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 60/71] fix: write the width of every glyph of a TrueType font
 once and in its place

---
 pdfme/fonts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 3f6c3c3..d3397b4 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -396,8 +396,8 @@ class PDFTrueTypeFont(PDFFont):
                 widths.append(current_width_group)
                 widths.append(current_glyph_id)
                 current_width_group = []
-                prev_glyph_id = current_glyph_id
 
+            prev_glyph_id = current_glyph_id
             current_width_group.append(glyph_set[cmap[c]].width * scale)
 
         widths.append(current_width_group)
-- 
2.43.0


From fe761b1ef098f790f896fe608c27c460bf7efa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 61/71] fix: stretch the spaces of justified TrueType text

---
 pdfme/text.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index c9b215f..9e2dfc5 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -939,9 +939,17 @@ class PDFTextBase:
 
         if text != '':
             if part.state.font_family not in STANDARD_FONTS:
-                stream += ' ({})Tj'.format(
-                    part.state.font.encode_text(''.join(part.words))
-                )
+                # Tw has no effect on the two-byte codes of these fonts, so the
+                # spaces are stretched one by one
+                stretch = ''
+                if tw != 0 and part.state.size != 0:
+                    stretch = round(-1000 * tw / part.state.size, 3)
+                stream += ' [{}]TJ'.format(''.join(
+                    '({}){}'.format(
+                        part.state.font.encode_text(piece),
+                        stretch if piece.endswith(' ') else ''
+                    ) for piece in re.findall('[^ ]* |[^ ]+', ''.join(part.words))
+                ))
             else:
                 stream += ' ({})Tj'.format(text)
         return stream
-- 
2.43.0


From 505ce028a9292058bf4fb4c3d801418df8771285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 62/71] fix: do not use a text encoding with the fonts Symbol
 and ZapfDingbats

---
 pdfme/fonts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index d3397b4..6a596a5 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -179,8 +179,7 @@ class PDFStandardFont(PDFFont):
         font = base.add({
             'Type': b'/Font',
             'Subtype': b'/Type1',
-            'BaseFont': subs('/{}', self.base_font),
-            'Encoding': b'/WinAnsiEncoding'
+            'BaseFont': subs('/{}', self.base_font)
         })
         if self.base_font not in ['Symbol', 'ZapfDingbats']:
             font['Encoding'] = b'/WinAnsiEncoding'
-- 
2.43.0


From 453fd8ba5d0bd5cfd65e4a4f94ea85ebb31a5aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:57 +0000
Subject: [PATCH 63/71] fix: fills inside of a cell are no longer hidden by the
 fill of the cell

---
 pdfme/table.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 689a7fe..d71de75 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -474,6 +474,7 @@ class PDFTable:
         self.parts = []
         self.lines = []
         self.fills = []
+        self.inner_fills = []
         self.fills_mem = {}
         self.heights_mem = {}
         self.rowspan = {}
@@ -533,6 +534,8 @@ class PDFTable:
         self.lines.extend(
             line for vert_line in self.vert_lines for line in vert_line['list']
         )
+        # what is inside of the cells goes over the fills of the cells
+        self.fills.extend(self.inner_fills)
 
     def add_row(self, row: Iterable, is_delayed: bool=False) -> str:
         """Method to add a row to this table.
@@ -1004,7 +1007,7 @@ class PDFTable:
 
         self.parts.extend(pdf_content.parts)
         self.lines.extend(pdf_content.lines)
-        self.fills.extend(pdf_content.fills)
+        self.inner_fills.extend(pdf_content.fills)
 
         if not pdf_content.finished:
             delayed.update({'delayed': pdf_content, 'type': 'content'})
@@ -1049,7 +1052,7 @@ class PDFTable:
 
         self.parts.extend(pdf_table.parts)
         self.lines.extend(pdf_table.lines)
-        self.fills.extend(pdf_table.fills)
+        self.inner_fills.extend(pdf_table.fills)
 
         if not pdf_table.finished:
             delayed.update({'delayed': pdf_table, 'type': 'table'})
-- 
2.43.0


From 4206793d56c7a72cdb949489229ceabb60a58048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:57 +0000
Subject: [PATCH 64/71] fix: tables without rows or columns no longer fail when
 they are added

---
 pdfme/table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index d71de75..2b44cff 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -169,12 +169,14 @@ class PDFTable:
         self.fonts = fonts
         self.pdf = pdf
         self.finished = False
+        self.cols_count = 0
+        self.delayed = {}
+        self.spans = {}
         if len(content) == 0 or len(content[0]) == 0:
+            self.content = []
             return
 
         self.cols_count = len(content[0])
-        self.delayed = {}
-        self.spans = {}
 
         if widths is not None:
             if not isinstance(widths, (list, tuple)):
-- 
2.43.0


From dd039e3c6a94832121a777165805d529c3f3be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:57 +0000
Subject: [PATCH 65/71] fix: table cells without content no longer make tables
 endless

---
 pdfme/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 2b44cff..8b36080 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -864,7 +864,8 @@ class PDFTable:
             real_height, did_finished = self.process_table(
                 element, x, y, width, height, style, delayed
             )
-        elif self._is_delayed_type(element, 'finished'):
+        else:
+            # the cell is finished, or it has no content
             did_finished = True
 
         if did_finished:
-- 
2.43.0


From 7aa43941c17becfbbf1135ba7accd07a095ad51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 66/71] fix: title outlines with the values of their variables

---
 pdfme/text.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 9e2dfc5..3862cb8 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -1229,6 +1229,11 @@ class PDFText(PDFTextBase):
             str: the text of the elements.
         """
         if isinstance(elements, dict):
+            if 'footnote' in elements:
+                return ''
+            if elements.get('var') is not None:
+                context = self.pdf.context if self.pdf else {}
+                return str(context.get(elements['var'], ''))
             elements = [v for k, v in elements.items() if k.startswith('.')][:1]
         if isinstance(elements, (list, tuple)):
             return ''.join(self._get_plain_text(e) for e in elements)
@@ -1302,7 +1307,7 @@ class PDFText(PDFTextBase):
             text_part['ids'].append('$uri:' + uri)
         outline = content.get('outline')
         if isinstance(outline, dict):
-            text = outline.get('text', self._get_plain_text(elements))
+            text = outline.get('text', self._get_plain_text(content))
             level = outline.get('level', 1)
             if label is None:
                 outline_label = str(uuid4())
-- 
2.43.0


From 7795e9a3927db368e5922298c26ff324d27360fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:53 +0000
Subject: [PATCH 67/71] fix: raise an error instead of adding pages forever
 when an element never fits

---
 pdfme/document.py |  5 +++++
 pdfme/pdf.py      | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/pdfme/document.py b/pdfme/document.py
index 60e3e36..d2af8b9 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -325,7 +325,10 @@ class PDFDocument:
             k: section_style[k] for k in PAGE_PROPS if k in section_style
         })
 
+        tries = 0
         while True:
+            state = self.section.get_state() \
+                if self.section.pdf_content_part is not None else None
             page_n = len(self.pdf.pages)
 
             page_args = section_page_args.copy()
@@ -377,6 +380,8 @@ class PDFDocument:
             if self.section.finished:
                 break
 
+            tries = self.pdf._count_tries(self.section, state, tries)
+
     def _add_content(self) -> None:
         """Method to add the section contents to the current page.
 
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 264a81d..f445fc0 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -703,12 +703,15 @@ class PDF:
             text_align=text_align, line_height=line_height, indent=indent,
             list_text=list_text, list_indent=list_indent, list_style=list_style
         )
+        tries = 0
         while not pdf_text.finished:
+            state = pdf_text.get_state()
             self.add_page()
             pdf_text = self._text(pdf_text, self.page.content_width,
                 self.page.content_height, self.page.margin_left,
                 self.page.margin_top
             )
+            tries = self._count_tries(pdf_text, state, tries)
 
     def _default_content_style(self) -> dict:
         """This method returns a dict with the PDF default values used by
@@ -805,12 +808,15 @@ class PDF:
             content, widths=widths, style=style, borders=borders, fills=fills,
             x=self.page.margin_left, width=self.page.content_width
         )
+        tries = 0
         while not pdf_table.finished:
+            state = pdf_table.get_state()
             self.add_page()
             pdf_table = self._table(
                 pdf_table, self.page.content_width, self.page.content_height,
                 self.page.margin_left, self.page.margin_top
             )
+            tries = self._count_tries(pdf_table, state, tries)
 
     def _create_content(
         self, content: dict, width: Number=None, height: Number=None,
@@ -878,12 +884,46 @@ class PDF:
         pdf_content = self._content(
             content, x=self.page.margin_left, width=self.page.content_width
         )
+        tries = 0
         while not pdf_content.finished:
+            state = pdf_content.get_state()
             self.add_page()
             pdf_content = self._content(pdf_content,
                 self.page.content_width, self.page.content_height,
                 self.page.margin_left, self.page.margin_top
             )
+            tries = self._count_tries(pdf_content, state, tries)
+
+    def _count_tries(
+        self, element: Union['PDFText', 'PDFTable', 'PDFContent'], state: dict,
+        tries: int
+    ) -> int:
+        """Method to count the pages in a row where nothing of an unfinished
+        element could be placed.
+
+        Args:
+            element (PDFText, PDFTable, PDFContent): the element that was just
+                run in a new page.
+            state (dict): the state of the element before this page.
+            tries (int): the number of pages in a row, before this one, where
+                nothing of the element could be placed.
+
+        Raises:
+            Exception: if there are too many of these pages, to avoid adding
+                pages forever.
+
+        Returns:
+            int: the number of pages in a row, including this one, where nothing
+            of the element could be placed.
+        """
+        if element.finished or element.get_state() != state:
+            return 0
+        if tries >= 50:
+            raise Exception(
+                'Element could not be fitted in the document: {}'
+                .format(element.content)
+            )
+        return tries + 1
 
     def _add_graphics(self, graphics: Iterable) -> None:
         """Method to add a list of PDF graphics streams to current page.
-- 
2.43.0


From c53183bf5888b5ca3b074e0ce2a62fc9646be0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:53 +0000
Subject: [PATCH 68/71] fix: footnotes larger than a page raise the error
 instead of being lost

---
 pdfme/document.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/document.py b/pdfme/document.py
index d2af8b9..6183860 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -539,6 +539,9 @@ class PDFDocument:
             content, self.width, self.height, self.x, self.y
         )
         footnote_obj.run()
+        if not footnote_obj.finished:
+            # not even a whole page is enough
+            footnote_obj.current_height = self.height
         return footnote_obj
 
     def _process_footnotes(self) -> 'PDFContent':
-- 
2.43.0


From e5dbbe5ac461742b69536bdad737ffc66b7268e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:00 +0000
Subject: [PATCH 69/71] fix: read JPEG images from the beginning of their
 buffer

---
 pdfme/image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/image.py b/pdfme/image.py
index 94b48f7..628eb19 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -92,6 +92,7 @@ class PDFImage:
                 image.
         """
         inverted = False
+        bytes_.seek(0)
         try:
             while True:
                 markerHigh, markerLow = struct.unpack("BB", bytes_.read(2))
-- 
2.43.0


From a8c869086e96d2fce527cef84aecc21497a10663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:08 +0000
Subject: [PATCH 70/71] fix: balance the columns of a box before the elements
 delayed until after it

---
 pdfme/content.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index c453b74..fc53182 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -624,7 +624,7 @@ class PDFContentPart:
         """
         parent = self.parent
         if parent:
-            if self.last:
+            if self.last and len(parent.delayed) == 0:
                 if parent.resetting:
                     parent.mimim_forward = False
                     return True
@@ -638,7 +638,10 @@ class PDFContentPart:
         """
 
         parent = self.parent
-        if parent and self.last  and parent.cols_n > 1:
+        if (
+            parent and self.last and len(parent.delayed) == 0 and
+            parent.cols_n > 1
+        ):
             parent.start_resetting()
             return
 
-- 
2.43.0


From b760c139fd51e7a68700349f279e780d0b92008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:29 +0000
Subject: [PATCH 71/71] fix: place delayed elements of a nested box in the next
 column

---
 pdfme/content.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfme/content.py b/pdfme/content.py
index fc53182..1563059 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -760,6 +760,10 @@ class PDFContentPart:
                 self.min_x = ret['min_x']
                 self.save_indexes()
                 self.go_to_beginning()
+                if len(self.delayed) > 0 and children_memory is not None:
+                    # the delayed elements go before the rest of the child
+                    self.partial_children_memory = copy(children_memory)
+                    return 'partial_next'
                 return 'retry' if children_memory is None else ret
         else:
             self.column += 1
-- 
2.43.0

