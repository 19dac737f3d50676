From 65763282c60b73a65c9069a4fe53706396f2dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 01/57] fix: display math whose parent is not a paragraph no
 longer crashes or closes a <p> that was never opened

---
 rsm/translator.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index e487f5d..5292f16 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -768,28 +768,26 @@ class Translator:
         )
 
     def visit_mathblock(self, node: nodes.MathBlock) -> EditCommand:
-        assert isinstance(node.parent, nodes.Paragraph)
-        return AppendBatchAndDefer(
-            [
-                # A paragraph that contains a mathblock cannot _start_ with a mathblock,
-                # so this mathblock must always contain some previous siblings that must
-                # be enclosed in <p> tags.  (See comment in visit_paragraph().)
-                AppendText("</p>"),
-                # This is the actual tag corresponding to the mathblock.
-                AppendNodeTag(node, "div"),
-                # The contents of a mathblock must be enclosed in '$$' and '$$' due to
-                # how MathJax works.
-                AppendTextAndDefer("$$\n", "\n$$"),
-            ]
-        )
+        items: list[EditCommand] = [
+            # This is the actual tag corresponding to the mathblock.
+            AppendNodeTag(node, "div"),
+            # The contents of a mathblock must be enclosed in '$$' and '$$' due to
+            # how MathJax works.
+            AppendTextAndDefer("$$\n", "\n$$"),
+        ]
+        if isinstance(node.parent, nodes.Paragraph):
+            # Only paragraphs open a <p> tag, which must be closed before the mathblock.
+            # (See comment in visit_paragraph().)
+            items.insert(0, AppendText("</p>"))
+        return AppendBatchAndDefer(items)
 
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
         # See also the comment in visit_paragraph().
         batch = self.leave_node(node)
 
-        # The paragraph-specific logic only applies when the parent is a BaseParagraph
+        # The paragraph-specific logic only applies when the parent is a Paragraph
         # With grammar changes, MathBlocks can now have other types of parents
-        if not isinstance(node.parent, nodes.BaseParagraph):
+        if not isinstance(node.parent, nodes.Paragraph):
             return batch
 
         # In case this mathblock is the last child of the paragraph, there is nothing
@@ -1822,9 +1820,10 @@ class HandrailsTranslator(Translator):
             collapse_in_hr=False,
             menu_label="Equation" if node.nonum else node.long_reftext,
         )
-        batch.items.insert(0, AppendText("</p>"))
         batch.items.append(AppendTextAndDefer("$$\n", "\n$$"))
-        batch.items[1].classes += ["hr-hidden", "hr-offset"]
+        batch.items[0].classes += ["hr-hidden", "hr-offset"]
+        if isinstance(node.parent, nodes.Paragraph):
+            batch.items.insert(0, AppendText("</p>"))
         return batch
 
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
-- 
2.43.0


From fcbe58c7c979a879e731b10a1fa584c1aa6ce847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 02/57] fix: no stray </p> after a paragraph with several
 display equations, the last at its end

---
 rsm/translator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsm/translator.py b/rsm/translator.py
index 5292f16..3d0aca0 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -792,7 +792,9 @@ class Translator:
 
         # In case this mathblock is the last child of the paragraph, there is nothing
         # special to do since visit_mathblock() already handled the remaining </p> tag.
+        # If an earlier mathblock re-opened a <p> tag, it is already closed, too.
         if not node.next_sibling():
+            node.parent._must_close_p_tag = False
             return batch
 
         # If there are more children, we need to close this mathblock, start a new <p>
-- 
2.43.0


From ac40091f351ef8a966f1d6104870c8f58ac069ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:45 +0000
Subject: [PATCH 03/57] fix: citing a label that is not a bibliography entry no
 longer crashes

---
 rsm/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index eee8528..e2c9f37 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -207,7 +207,9 @@ class Transformer:
                 cite.label = f"cite-{next(counter)}"
                 pending.replace_self(cite)
                 for tgt in targets:
-                    tgt.backlinks.append(cite.label)
+                    # a citation may also point at a label that is not a bibitem
+                    if isinstance(tgt, nodes.Bibitem):
+                        tgt.backlinks.append(cite.label)
             elif isinstance(pending, nodes.PendingPrev):
                 try:
                     step = pending.first_ancestor_of_type(nodes.Step)
-- 
2.43.0


From 64d94ba50413342688f7a3d99c6663e11d10e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:45 +0000
Subject: [PATCH 04/57] fix: the suppose and wlog constructs have keywords and
 no longer crash

---
 rsm/nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 669f1ae..cd90f8b 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -1182,6 +1182,8 @@ class Construct(NodeWithChildren):
         "prove": "PROVE",
         "pick": "PICK",
         "suffices": "SUFFICES",
+        "suppose": "SUPPOSE",
+        "wlog": "WLOG",
         "claim": "⊢",
         "claimblock": "⊢",
         "qed": "QED",
-- 
2.43.0


From 9a5ddfd144d01eb9bf075057dd8b9735e2bafe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:56 +0000
Subject: [PATCH 05/57] fix: a bibliography entry without a year is reported
 instead of crashing the translator

---
 rsm/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index cd90f8b..b608031 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -1537,7 +1537,7 @@ class Bibitem(Node):
         kind: str = "",
         author: str = "",
         title: str = "",
-        year: int = -1,
+        year: str = "",
         journal: str = "",
         volume: int = -1,
         number: int = -1,
-- 
2.43.0


From 65fe8370446bb990260e24501084fada9489c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 06/57] fix: an unknown code language is reported instead of
 crashing the translator

---
 rsm/util.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rsm/util.py b/rsm/util.py
index 61523cb..17d7803 100644
--- a/rsm/util.py
+++ b/rsm/util.py
@@ -6,12 +6,16 @@ Utilities.
 
 """
 
+import logging
 import textwrap
 from typing import Any, Generator, Optional, Union
 
 from pygments import highlight
 from pygments.formatters import HtmlFormatter  # pylint: disable=no-name-in-module
 from pygments.lexers import get_lexer_by_name
+from pygments.util import ClassNotFound
+
+logger = logging.getLogger("RSM").getChild("util")
 
 
 # pylint: disable-next=too-few-public-methods
@@ -27,11 +31,12 @@ class RSMPygmentsFormatter(HtmlFormatter):
 
 
 def highlight_code(source: str, lang: str) -> str:
-    highlighted = highlight(
-        source,
-        get_lexer_by_name(lang),
-        RSMPygmentsFormatter(),
-    )
+    try:
+        lexer = get_lexer_by_name(lang)
+    except ClassNotFound:
+        logger.warning(f'Unknown language "{lang}", code will not be highlighted')
+        return source
+    highlighted = highlight(source, lexer, RSMPygmentsFormatter())
     return highlighted  # type: ignore[no-any-return]
 
 
-- 
2.43.0


From 7ec1fafc7de54217af228c61b4fa6d87094cc5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 07/57] fix: make() and FullBuildApp honour handrails, the
 linter and log_lineno instead of mixing them up

---
 rsm/app.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsm/app.py b/rsm/app.py
index 19c3bee..2d99ec3 100644
--- a/rsm/app.py
+++ b/rsm/app.py
@@ -242,7 +242,14 @@ class FullBuildApp(ProcessorApp):
         run_linter: bool = False,
     ):
         super().__init__(
-            srcpath, plain, loglevel, log_format, log_time, handrails, run_linter
+            srcpath,
+            plain,
+            loglevel,
+            log_format,
+            log_time,
+            log_lineno,
+            handrails=handrails,
+            run_linter=run_linter,
         )
         self.add_task(Task("builder", b := builder.FullBuilder(), b.build))
         self.add_task(Task("writer", w := writer.Writer(), w.write))
@@ -302,6 +309,7 @@ def make(
     return FullBuildApp(
         srcpath=path,
         plain=source,
+        handrails=handrails,
         run_linter=lint,
         loglevel=loglevel,
         log_format=log_format,
-- 
2.43.0


From dfbaef5f8ac4393d186be4b7bc8243a3f101cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 08/57] fix: the rsm log format can show records that carry
 only a start position, such as lint messages

---
 rsm/rsmlogger.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index a7a613c..afedc2b 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -48,7 +48,9 @@ class RSMFormatter(logging.Formatter):
     time = grey + "%(asctime)s " + reset
     name = blue + "%(name)s " + reset
     msgformat = "%(levelname)-3s | %(message)s" + reset
-    point = " | (%(start_row)d, %(start_col)d) - (%(end_row)d, %(end_col)d) | " + reset
+    start = " | (%(start_row)d, %(start_col)d)"
+    point = start + " - (%(end_row)d, %(end_col)d) | " + reset
+    point_sans_end = start + " | " + reset
     suffix = grey + " (%(filename)s:%(lineno)d)" + reset
 
     COLORS = {
@@ -65,12 +67,15 @@ class RSMFormatter(logging.Formatter):
         self.log_lineno = log_lineno
 
     def format(self, record: logging.LogRecord) -> str:
+        point = ""
+        if hasattr(record, "start_row"):
+            point = self.point if hasattr(record, "end_row") else self.point_sans_end
         fmt = (
             (self.time if self.log_time else "")
             + self.name
             + self.COLORS.get(record.levelno, self.grey)
             + self.msgformat
-            + (self.point if hasattr(record, "start_row") else "")
+            + point
             + self.suffix
         )
         formatter = logging.Formatter(fmt, datefmt="%H:%M:%S")
-- 
2.43.0


From 24e332decaf55b9579952984b39aadd18705ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:41 +0000
Subject: [PATCH 09/57] fix: the rsm log format leaves out line numbers when
 asked to

---
 rsm/rsmlogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index afedc2b..25121bc 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -76,7 +76,7 @@ class RSMFormatter(logging.Formatter):
             + self.COLORS.get(record.levelno, self.grey)
             + self.msgformat
             + point
-            + self.suffix
+            + (self.suffix if self.log_lineno else self.reset)
         )
         formatter = logging.Formatter(fmt, datefmt="%H:%M:%S")
         return formatter.format(record)
-- 
2.43.0


From a41d7fa0158eb80367bf3eb34dc94431c833b8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:41 +0000
Subject: [PATCH 10/57] fix: an author without any data no longer crashes the
 handrails translator

---
 rsm/translator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 3d0aca0..d25da18 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1644,7 +1644,8 @@ class HandrailsTranslator(Translator):
         hr = self._replace_node_with_handrails(
             node, additional_classes=["hr-hidden"], collapse_in_hr=False
         )
-        hr.items += batch.items[2:-1]
+        if isinstance(batch, AppendBatchAndDefer):  # otherwise the author is empty
+            hr.items += batch.items[2:-1]
         return hr
 
     def leave_author(self, node: nodes.Author) -> EditCommand:
-- 
2.43.0


From 2fa9fb5ee346bd7feb5c3375615e49ab811a0d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 11/57] fix: a space separates the keyword of a construct from
 a reference, link or code that comes first

---
 rsm/tsparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 71bd272..8f4ab09 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -392,7 +392,9 @@ def _normalize_text(root: TSNode) -> str:
         if isinstance(node, nodes.Construct):
             if (first := node.first_of_type(nodes.Text)) and not first.prev_sibling():
                 first.text = f" {first.text}"
-            if (first := node.first_of_type(nodes.Math)) and not first.prev_sibling():
+            elif node.children and not isinstance(
+                node.children[0], (nodes.Span, nodes.MathBlock)
+            ):
                 node.prepend(nodes.Text(" "))
             node.prepend(nodes.Keyword().append(nodes.Text(node.keyword)))
 
-- 
2.43.0


From b2792e9a5d59fb0c18b1543f1d3fca8bda15a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 12/57] fix: adjacent references, citations and links keep the
 space between them

---
 rsm/tsparser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 8f4ab09..75c0cd6 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -416,7 +416,15 @@ def _normalize_text(root: TSNode) -> str:
         # Finally we handle the space between non-Text children of a paragraph, for
         # example two Spans together, or a Span followed by a Construct.  In all cases,
         # we simply insert a single space between them.
-        classes = [nodes.Span, nodes.Construct, nodes.Math]
+        classes = [
+            nodes.Span,
+            nodes.Construct,
+            nodes.Math,
+            nodes.PendingReference,
+            nodes.PendingCite,
+            nodes.PendingPrev,
+            nodes.URL,
+        ]
         sibling = node.next_sibling()
         if sibling and type(node) in classes and type(sibling) in classes:
             node.replace_self([node, nodes.Text(" ")])
-- 
2.43.0


From d40412feef82af234f86e66bcec93d2d6d812e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 13/57] fix: the appendix mark letters sections only, and any
 number of them

---
 rsm/transformer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index e2c9f37..7354180 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -26,7 +26,7 @@ place is of utmost importance.
 
 import logging
 from collections import defaultdict
-from itertools import count
+from itertools import chain, count, product
 from string import ascii_uppercase
 from typing import Generator, Optional, Type
 
@@ -278,7 +278,13 @@ class Transformer:
         within_appendix = False
         for node in self.tree.traverse():
             if isinstance(node, nodes.Appendix):
-                counts[nodes.Manuscript] = defaultdict(lambda: iter(ascii_uppercase))
+                # A, B, ..., Z, AA, AB, ...
+                counts[nodes.Manuscript][nodes.Section] = (
+                    "".join(letters)
+                    for letters in chain.from_iterable(
+                        product(ascii_uppercase, repeat=n) for n in count(start=1)
+                    )
+                )
                 within_appendix = True
                 continue
             if isinstance(node, (nodes.Proof, nodes.Subproof)):
-- 
2.43.0


From 3b1ad6c2278b2d9bf890dc7b45f865832c3770b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 14/57] fix: escaped characters in the title of a theorem lose
 their backslash, as in every other title

---
 rsm/tsparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 75c0cd6..24bb10a 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -434,7 +434,7 @@ def _normalize_text(root: TSNode) -> str:
             node.text = EscapedString(node.text, DELIMS).escape()
         if isinstance(node, nodes.Section):
             node.title = EscapedString(node.title, DELIMS).escape()
-        if isinstance(node, nodes.Manuscript):
+        if isinstance(node, (nodes.Manuscript, nodes.Theorem)):
             node.title = EscapedString(node.title, DELIMS).escape()
     
     return ""  # This function modifies nodes in place
-- 
2.43.0


From 10ac5ec8d9ea12b3ba6a71fd708c8e9802137463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 15/57] fix: the handrails translator no longer edits the
 manuscript it translates, so doing it twice keeps the period after math

---
 rsm/translator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index d25da18..cf14266 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1796,8 +1796,9 @@ class HandrailsTranslator(Translator):
         # We reach this branch only if the Math node is immediately followed by Text
         # that starts with a dot "."; in this case, the math and the dot may be
         # separated if the browser's viewport is too narrow, which looks ugly.  The only
-        # way to fix it is to wrap the math and the dot in a span, and remove the dot
-        # from the subsequent text.  The span is then dealt with using CSS.
+        # way to fix it is to wrap the math and the dot in a span, and leave the dot
+        # out of the subsequent text (see visit_text()).  The span is then dealt with
+        # using CSS.
         node._followed_by_dot = True
         batch.items.insert(
             0,
@@ -1807,9 +1808,14 @@ class HandrailsTranslator(Translator):
                 newline_outer=False,
             ),
         )
-        sib.text = sib.text[1:]
         return batch
 
+    def visit_text(self, node: nodes.Text) -> EditCommand:
+        # See the comment in visit_math().
+        if node.text.startswith(".") and isinstance(node.prev_sibling(), nodes.Math):
+            return AppendText(node.text[1:])
+        return super().visit_text(node)
+
     def leave_math(self, node: nodes.Math) -> EditCommand:
         batch = self.leave_node(node)
         if not getattr(node, "_followed_by_dot", False):
-- 
2.43.0


From a19a5645eb157fceee71a5cd0eb1b4d5346ecc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:37 +0000
Subject: [PATCH 16/57] fix: text, math and code reach the page as text, even
 where HTML would take them for markup

---
 rsm/translator.py | 12 ++++++------
 rsm/util.py       | 11 ++++++++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index cf14266..e911709 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -119,7 +119,7 @@ from typing import Any, Callable, Iterable, Literal, Optional
 from icecream import ic
 
 from . import nodes
-from .util import highlight_code
+from .util import escape_html, highlight_code
 
 logger = logging.getLogger("RSM").getChild("tlate")
 
@@ -818,7 +818,7 @@ class Translator:
             classes = ["highlight", node.lang]
             code = highlight_code(node.text, node.lang)
         else:
-            code = node.text
+            code = escape_html(node.text)
         return AppendBatchAndDefer(
             [
                 AppendOpenTag(
@@ -851,13 +851,13 @@ class Translator:
         )
 
     def visit_text(self, node: nodes.Text) -> EditCommand:
-        return AppendText(node.text)
+        return AppendText(escape_html(node.text))
 
     def visit_error(self, node: nodes.Error) -> EditCommand:
         return AppendBatchAndDefer(
             [
                 AppendNodeTag(node, "span", newline_inner=False, newline_outer=False),
-                AppendText(node.text),
+                AppendText(escape_html(node.text)),
             ]
         )
 
@@ -1569,7 +1569,7 @@ class HandrailsTranslator(Translator):
         )
 
     def _make_source_div(self):
-        return AppendText(text=f'<div class="rsm-source hide">{self.tree.src}</div>')
+        return AppendText(text=f'<div class="rsm-source hide">{escape_html(self.tree.src)}</div>')
 
     def _make_minimap(
         self, node: nodes.Contents, follow: str, with_ids: bool = False
@@ -1813,7 +1813,7 @@ class HandrailsTranslator(Translator):
     def visit_text(self, node: nodes.Text) -> EditCommand:
         # See the comment in visit_math().
         if node.text.startswith(".") and isinstance(node.prev_sibling(), nodes.Math):
-            return AppendText(node.text[1:])
+            return AppendText(escape_html(node.text[1:]))
         return super().visit_text(node)
 
     def leave_math(self, node: nodes.Math) -> EditCommand:
diff --git a/rsm/util.py b/rsm/util.py
index 17d7803..1d3af06 100644
--- a/rsm/util.py
+++ b/rsm/util.py
@@ -6,7 +6,9 @@ Utilities.
 
 """
 
+import html
 import logging
+import re
 import textwrap
 from typing import Any, Generator, Optional, Union
 
@@ -30,12 +32,19 @@ class RSMPygmentsFormatter(HtmlFormatter):
         yield from source
 
 
+def escape_html(text: Any) -> str:
+    """Escape whatever part of a plain text HTML would take for a tag or a reference."""
+    return re.sub(
+        r"<(?=[A-Za-z/!?])|&(?=[A-Za-z#])", lambda m: html.escape(m.group()), str(text)
+    )
+
+
 def highlight_code(source: str, lang: str) -> str:
     try:
         lexer = get_lexer_by_name(lang)
     except ClassNotFound:
         logger.warning(f'Unknown language "{lang}", code will not be highlighted')
-        return source
+        return escape_html(source)
     highlighted = highlight(source, lexer, RSMPygmentsFormatter())
     return highlighted  # type: ignore[no-any-return]
 
-- 
2.43.0


From 73b2e69efa4f5d146a568cd36b953ee5988729d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 17/57] fix: titles, names, reference texts and attribute
 values are escaped, too

---
 rsm/translator.py | 29 ++++++++++++++++++-----------
 rsm/util.py       | 13 ++++++++-----
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index e911709..22d5ccc 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -146,7 +146,9 @@ def _make_tag(
     items = []
     if kwargs or tabindex is not None:
         if kwargs:
-            items += [f'{k}="{v}"' for k, v in kwargs.items() if v]
+            items += [
+                f'{k}="{escape_html(v, quote=True)}"' for k, v in kwargs.items() if v
+            ]
         if tabindex is not None:
             items += [f"tabindex={tabindex}"]
     if nodeid is not None:
@@ -603,7 +605,7 @@ class Translator:
             ]
         )
         if node.title:
-            batch.items.append(AppendHeading(1, node.title))
+            batch.items.append(AppendHeading(1, escape_html(node.title)))
         return batch
 
     def visit_author(self, node: nodes.Author) -> EditCommand:
@@ -611,7 +613,7 @@ class Translator:
             if node.email:
                 email = (
                     _make_tag("a", id_="", classes="", href=f"mailto:{node.email}")
-                    + node.email
+                    + escape_html(node.email)
                     + "</a>"
                 )
             else:
@@ -621,8 +623,12 @@ class Translator:
                     AppendNodeTag(node),
                     AppendOpenTagManualClose("div", classes=["paragraph"]),
                     *[
-                        AppendParagraph(str(x))
-                        for x in [node.name, node.affiliation, email]
+                        AppendParagraph(x)
+                        for x in [
+                            escape_html(node.name or ""),
+                            escape_html(node.affiliation or ""),
+                            email,
+                        ]
                         if x
                     ],
                     AppendText("</div>"),
@@ -643,12 +649,12 @@ class Translator:
         batch = AppendBatch([])
 
         if node.keywords:
-            text = ", ".join(node.keywords)
+            text = escape_html(", ".join(node.keywords))
             batch.items.append(
                 AppendParagraph(f"Keywords: {text}", classes=["keywords"])
             )
         if node.msc:
-            text = ", ".join(node.msc)
+            text = escape_html(", ".join(node.msc))
             batch.items.append(AppendParagraph(f"MSC: {text}", classes=["msc"]))
 
         # For documentation: if a visit_* method returns a command with defers = True,
@@ -699,7 +705,7 @@ class Translator:
         if node.title:
             items.append(
                 AppendOpenCloseTag(
-                    tag="span", content=f"{node.title}.", classes=["pg-label"]
+                    tag="span", content=f"{escape_html(node.title)}.", classes=["pg-label"]
                 )
             )
 
@@ -713,6 +719,7 @@ class Translator:
         heading = (
             f"{node.full_number}. {node.title}" if not node.nonum else f"{node.title}"
         )
+        heading = escape_html(heading)
         return AppendBatchAndDefer(
             [
                 AppendNodeTag(node, "section"),
@@ -905,7 +912,7 @@ class Translator:
                 classes=classes + (additional_classes or []),
                 href=href_text,
             )
-            + reftext
+            + escape_html(reftext)
             + "</a>"
         )
         return tag
@@ -1046,7 +1053,7 @@ class Translator:
             items.append(node.year)
         else:
             logger.warning(f"Bibitem {node.label} has no year")
-        text = ". ".join([i.strip(".") for i in items]) + "."
+        text = escape_html(". ".join([i.strip(".") for i in items]) + ".")
         if node.doi:
             a_tag = _make_tag(
                 "a",
@@ -1237,7 +1244,7 @@ class HandrailsTranslator(Translator):
     def _hr_menu_label(self, label: str) -> str:
         return f"""
   <div class="hr-menu-label">
-    <span class="hr-menu-item-text">{label}</span>
+    <span class="hr-menu-item-text">{escape_html(label)}</span>
   </div>"""
 
     def _make_menu_item(self, classes: list[str], icon: str, text: str) -> str:
diff --git a/rsm/util.py b/rsm/util.py
index 1d3af06..c600093 100644
--- a/rsm/util.py
+++ b/rsm/util.py
@@ -32,11 +32,14 @@ class RSMPygmentsFormatter(HtmlFormatter):
         yield from source
 
 
-def escape_html(text: Any) -> str:
-    """Escape whatever part of a plain text HTML would take for a tag or a reference."""
-    return re.sub(
-        r"<(?=[A-Za-z/!?])|&(?=[A-Za-z#])", lambda m: html.escape(m.group()), str(text)
-    )
+def escape_html(text: Any, quote: bool = False) -> str:
+    """Escape whatever part of a plain text HTML would take for a tag or a reference.
+
+    When the text goes between quotes, as the value of an attribute, escape those, too.
+
+    """
+    pattern = r"<(?=[A-Za-z/!?])|&(?=[A-Za-z#])" + ('|"' if quote else "")
+    return re.sub(pattern, lambda m: html.escape(m.group()), str(text))
 
 
 def highlight_code(source: str, lang: str) -> str:
-- 
2.43.0


From eea90fb5b68e36e98f04299fd2e0f85f0f09f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 18/57] fix: display math that is a claim inside a paragraph no
 longer nests a block in the paragraph's <p>

---
 rsm/translator.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 22d5ccc..a55f59b 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -695,7 +695,7 @@ class Translator:
         #
         # A paragraph cannot start with a mathblock.
         items: list[EditCommand] = [AppendNodeTag(node, "div")]  #
-        if node.first_of_type(nodes.MathBlock):
+        if node.first_of_type((nodes.MathBlock, nodes.ClaimBlock)):
             items.append(AppendOpenTagManualClose(tag="p", newline_inner=False))
         else:
             items.append(AppendOpenTag(tag="p", newline_inner=False))
@@ -789,8 +789,10 @@ class Translator:
         return AppendBatchAndDefer(items)
 
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
+        return self._reopen_p_tag(node, self.leave_node(node))
+
+    def _reopen_p_tag(self, node: nodes.Node, batch: EditCommand) -> EditCommand:
         # See also the comment in visit_paragraph().
-        batch = self.leave_node(node)
 
         # The paragraph-specific logic only applies when the parent is a Paragraph
         # With grammar changes, MathBlocks can now have other types of parents
@@ -928,7 +930,14 @@ class Translator:
         )
 
     def visit_claimblock(self, node: nodes.ClaimBlock) -> EditCommand:
-        return AppendNodeTag(node)
+        items: list[EditCommand] = [AppendNodeTag(node)]
+        if isinstance(node.parent, nodes.Paragraph):
+            # Same as with mathblocks, see comment in visit_mathblock().
+            items.insert(0, AppendText("</p>"))
+        return AppendBatchAndDefer(items)
+
+    def leave_claimblock(self, node: nodes.ClaimBlock) -> EditCommand:
+        return self._reopen_p_tag(node, self.leave_node(node))
 
     def _make_title_node(
         self, label: str, desc: str = "", types: list = ["hr-label"]
-- 
2.43.0


From 36a7ad87e61787866ef8f9ad94f90995f2d75e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 19/57] fix: comments and errors between a metadata key and its
 value no longer crash the parser or become values

---
 rsm/tsparser.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 24bb10a..3a0a94e 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -309,10 +309,11 @@ CST_TYPE_TO_AST_TYPE: dict[str, Callable] = {
 
 def _parse_metakey_list(cst_key: TSNode, cst_val: TSNode) -> tuple[str, list[str]]:
     key = cst_key.named_children[0].type
-    if cst_val.named_children:
-        val = [c.text.decode("utf-8").strip() for c in cst_val.named_children if c.text is not None]
-    else:
-        val = [c.text.decode("utf-8").strip() for c in cst_val.named_children if c.text is not None]
+    val = [
+        c.text.decode("utf-8").strip()
+        for c in cst_val.named_children
+        if c.text is not None and c.type != "comment"
+    ]
     return key, val
 
 
@@ -334,10 +335,9 @@ def _parse_metakey_bool(cst_key: TSNode, _: TSNode) -> tuple[str, bool]:
 def _parse_meta_into_dict(node: TSNode) -> dict[str, Any]:
     pairs = {}
     for pair in [c for c in node.named_children if c.type.endswith("pair")]:
-        if len(pair.named_children) == 1:  # bool meta key
-            cst_key, cst_val = pair.named_children[0], None
-        else:
-            cst_key, cst_val = pair.named_children
+        # comments and errors may stand between the key and its value
+        cst_key, *rest = [c for c in pair.named_children if c.type != "comment"]
+        cst_val = rest[-1] if rest else None  # bool meta keys have no value
         key, val = globals()[f"_parse_{cst_key.type}"](cst_key, cst_val)
         pairs[key] = val
     return pairs
@@ -481,7 +481,8 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             bib_node.kind = cst_node.child_by_field_name("kind").text.decode("utf-8")
             bib_node.label = cst_node.child_by_field_name("label").text.decode("utf-8")
             for pair in [c for c in cst_node.named_children if c.type == "bibitempair"]:
-                key, value = pair.named_children
+                # comments and errors may stand between the key and its value
+                key, *_, value = [c for c in pair.named_children if c.type != "comment"]
                 key, value = key.text.decode("utf-8"), value.text.decode("utf-8")
                 setattr(bib_node, key, value)
 
-- 
2.43.0


From a0a132b7dd8300635d1150304c978bb93f1b13c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:54 +0000
Subject: [PATCH 20/57] fix: content after the subproof of a step is reported
 as an RSM error instead of failing an assertion

---
 rsm/transformer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 7354180..acc2e34 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -265,7 +265,10 @@ class Transformer:
                 subproof = nodes.Subproof()
                 subproof.append(children[split_at_idx:])
             elif isinstance(children[split_at_idx], nodes.Subproof):
-                assert split_at_idx == len(children) - 1
+                if split_at_idx != len(children) - 1:
+                    raise RSMTransformerError(
+                        "Found content after the subproof of a proof step"
+                    )
                 subproof = children[split_at_idx]
             else:
                 raise RSMTransformerError("How did we get here?")
-- 
2.43.0


From 13aba8325f1c9a786076b601574f52f56f85b6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 21/57] fix: labels and types with quotes no longer break the
 tags that carry them

---
 rsm/translator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index a55f59b..8ab54c5 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -138,10 +138,10 @@ def _make_tag(
 ) -> str:
     text = f"<{tag}"
     if id_:
-        text += f' id="{id_}"'
+        text += f' id="{escape_html(id_, quote=True)}"'
     if classes:
         classes = " ".join(classes)
-        text += f' class="{classes}"'
+        text += f' class="{escape_html(classes, quote=True)}"'
     tabindex = 0 if is_selectable else None
     items = []
     if kwargs or tabindex is not None:
@@ -1596,10 +1596,11 @@ class HandrailsTranslator(Translator):
         for ref in node.traverse(nodeclass=nodes.Reference):
             cy = 20 + (24 + 8) * num
             r = radii[type(ref.target)]
-            id_ = f"mm-{ref.target.label}"
+            label = escape_html(ref.target.label, quote=True)
+            id_ = f"mm-{label}"
             if with_ids:
                 circles.append(
-                    f'<a href="#{ref.target.label}" class="reference" tabindex="-1">'
+                    f'<a href="#{label}" class="reference" tabindex="-1">'
                     f'<circle id="{id_}" cx="16" cy="{cy}" r="{r}" data-pos="{cy}" />'
                 )
             else:
-- 
2.43.0


From fa1c9b069880ef6487ac659879eb235e1e65dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 22/57] fix: display math in a caption or a step no longer
 closes a <p> that was never opened

---
 rsm/translator.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 8ab54c5..0b0bf70 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -782,7 +782,7 @@ class Translator:
             # how MathJax works.
             AppendTextAndDefer("$$\n", "\n$$"),
         ]
-        if isinstance(node.parent, nodes.Paragraph):
+        if self._interrupts_p_tag(node):
             # Only paragraphs open a <p> tag, which must be closed before the mathblock.
             # (See comment in visit_paragraph().)
             items.insert(0, AppendText("</p>"))
@@ -791,12 +791,18 @@ class Translator:
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
         return self._reopen_p_tag(node, self.leave_node(node))
 
+    def _interrupts_p_tag(self, node: nodes.Node) -> bool:
+        # Steps and captions are paragraphs, too, but they do not open a <p> tag.
+        return isinstance(node.parent, nodes.Paragraph) and not isinstance(
+            node.parent, (nodes.Step, nodes.Caption)
+        )
+
     def _reopen_p_tag(self, node: nodes.Node, batch: EditCommand) -> EditCommand:
         # See also the comment in visit_paragraph().
 
         # The paragraph-specific logic only applies when the parent is a Paragraph
         # With grammar changes, MathBlocks can now have other types of parents
-        if not isinstance(node.parent, nodes.Paragraph):
+        if not self._interrupts_p_tag(node):
             return batch
 
         # In case this mathblock is the last child of the paragraph, there is nothing
@@ -931,7 +937,7 @@ class Translator:
 
     def visit_claimblock(self, node: nodes.ClaimBlock) -> EditCommand:
         items: list[EditCommand] = [AppendNodeTag(node)]
-        if isinstance(node.parent, nodes.Paragraph):
+        if self._interrupts_p_tag(node):
             # Same as with mathblocks, see comment in visit_mathblock().
             items.insert(0, AppendText("</p>"))
         return AppendBatchAndDefer(items)
@@ -1848,7 +1854,7 @@ class HandrailsTranslator(Translator):
         )
         batch.items.append(AppendTextAndDefer("$$\n", "\n$$"))
         batch.items[0].classes += ["hr-hidden", "hr-offset"]
-        if isinstance(node.parent, nodes.Paragraph):
+        if self._interrupts_p_tag(node):
             batch.items.insert(0, AppendText("</p>"))
         return batch
 
-- 
2.43.0


From 9de80dd90b4830d11c939a122618c5af5b58b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:41 +0000
Subject: [PATCH 23/57] fix: a DOI with angle brackets no longer loses its end
 in the bibliography with handrails

---
 rsm/translator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 0b0bf70..6a418d6 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1878,8 +1878,8 @@ class HandrailsTranslator(Translator):
 
         # get the <a> tag already there...
         text = batch.items[1]._text
-        pat = r'(<a.*?class="bibitem-doi".*?>).*?</a>'
-        mobj = re.search(pat, text)
+        pat = r'(<a.*?class="bibitem-doi".*?>)\[link\]</a>'
+        mobj = re.search(pat, text, flags=re.DOTALL)
         if mobj is None:
             logger.warning("Unable to extract link from {node}")
             return hr
-- 
2.43.0


From 88f46c1ae075e11b8b115e6d93a8d32a23a01724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:26 +0000
Subject: [PATCH 24/57] fix: make looks for images only, under their own name:
 src="..." in text and & in a path crashed it

---
 rsm/builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsm/builder.py b/rsm/builder.py
index 3c8552f..052c1e6 100644
--- a/rsm/builder.py
+++ b/rsm/builder.py
@@ -3,6 +3,7 @@
 import logging
 import re
 from abc import ABC, abstractmethod
+from html import unescape
 from pathlib import Path
 from textwrap import dedent
 from typing import Optional
@@ -44,8 +45,10 @@ class BaseBuilder(ABC):
         pass
 
     def find_required_assets(self) -> None:
+        # Only images have assets, other src="..." are part of the text of the manuscript.
+        pattern = r'<img (?:[^"]*"[^"]*")*?\s*src="(.*?)"'
         self.required_assets = [
-            Path(x) for x in re.findall(r'src="(.*?)"', str(self.body))
+            Path(unescape(x)) for x in re.findall(pattern, str(self.body))
         ]
 
 
-- 
2.43.0


From 1bb40617ff92d7dfa3c0f23724a335cbc04ba9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:37 +0000
Subject: [PATCH 25/57] fix: an image that make cannot find is reported instead
 of costing the whole page

---
 rsm/builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsm/builder.py b/rsm/builder.py
index 052c1e6..cd8c7e4 100644
--- a/rsm/builder.py
+++ b/rsm/builder.py
@@ -10,6 +10,7 @@ from typing import Optional
 
 from fs import open_fs
 from fs.copy import copy_file
+from fs.errors import FSError
 from icecream import ic
 
 from .manuscript import WebManuscript
@@ -132,4 +133,7 @@ class FullBuilder(SingleFileBuilder):
         source = open_fs(str(Path().resolve()))
 
         for fn in self.required_assets:
-            copy_file(source, str(fn), self.web, f"static/{fn.name}")
+            try:
+                copy_file(source, str(fn), self.web, f"static/{fn.name}")
+            except FSError as e:
+                logger.warning(f'Cannot copy asset "{fn}": {e}')
-- 
2.43.0


From 2d3e9b129ae5095439cc6d58fcf71334c58291bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:01 +0000
Subject: [PATCH 26/57] fix: a transformer (or app) that runs twice no longer
 takes the labels of its first run for duplicates

---
 rsm/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index acc2e34..3b7cab6 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -135,6 +135,7 @@ class Transformer:
         """
         logger.info("Transforming...")
         self.tree = tree
+        self.labels_to_nodes = {}
 
         self.collect_labels()
         self.resolve_pending_references()
-- 
2.43.0


From 4d2033628e695ef8bdeee4473d5ca1bc0a6d63b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:55 +0000
Subject: [PATCH 27/57] fix: manuscripts are read as UTF-8 whatever the locale

---
 rsm/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/reader.py b/rsm/reader.py
index 0c16b0f..7f805e0 100644
--- a/rsm/reader.py
+++ b/rsm/reader.py
@@ -43,6 +43,6 @@ class Reader:
         if not path:
             raise TypeError("Expected path, got None")
         self.path = Path(path)
-        with open(path) as file:
+        with open(path, encoding="utf-8") as file:
             self.src = file.read()
         return self.src
-- 
2.43.0


From 13f3d73c848a56bff4bca9d77ac25c33572216da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:29 +0000
Subject: [PATCH 28/57] fix: append, prepend and replace_self leave a tree
 behind: nothing changes when they raise, and no node is in two places

---
 rsm/nodes.py | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index b608031..c3080c7 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -389,17 +389,16 @@ class Node:
 
     @parent.setter
     def parent(self, node: Optional["NodeWithChildren"]) -> None:
-        if node is None:
-            self._parent = None
-        elif not self.__class__.possible_parents:
-            self._parent = node
-        else:
-            possible_parents = self.__class__.possible_parents
-            if possible_parents and type(node) not in possible_parents:
-                raise RSMNodeError(
-                    f"Node of type {type(self)} cannot have parent of type {type(node)}"
-                )
-            self._parent = node
+        if node is not None:
+            self._check_parent(node)
+        self._parent = node
+
+    def _check_parent(self, node: "NodeWithChildren") -> None:
+        possible_parents = self.__class__.possible_parents
+        if possible_parents and type(node) not in possible_parents:
+            raise RSMNodeError(
+                f"Node of type {type(self)} cannot have parent of type {type(node)}"
+            )
 
     @property
     def children(self) -> tuple:
@@ -808,17 +807,21 @@ class Node:
         """
         if not self.parent:
             raise RSMNodeError("Can only call replace_self on a node with parent")
+        parent = self.parent
+        if isinstance(replacement, Node):
+            replacement = [replacement]
+        else:
+            replacement = list(replacement)
+        for rep in replacement:
+            if rep is not self and rep.parent:
+                raise RSMNodeError("Attempting to replace with a child of a parent")
+            rep._check_parent(parent)
         ids = [id(c) for c in self.parent.children]
         index = ids.index(id(self))
-        parent = self.parent
         self.parent.remove(self)
-        if not isinstance(replacement, Node):
-            for idx, rep in enumerate(replacement):
-                parent._children.insert(index + idx, rep)
-                rep.parent = parent
-        else:
-            parent._children.insert(index, replacement)
-            replacement.parent = parent
+        for idx, rep in enumerate(replacement):
+            parent._children.insert(index + idx, rep)
+            rep.parent = parent
 
     def remove_self(self) -> None:
         """Remove this Node from its parent's children.
@@ -940,8 +943,8 @@ class NodeWithChildren(Node):
         elif isinstance(child, Node):
             if child.parent:
                 raise RSMNodeError("Attempting to append child to a new parent")
+            child.parent = self  # may raise
             self._children.append(child)
-            child.parent = self
         else:
             raise TypeError("Can only append a Node or iterable of Nodes as children")
         return self
@@ -962,8 +965,10 @@ class NodeWithChildren(Node):
         elif isinstance(child, Node):
             if child.parent and child.parent is not self:
                 raise RSMNodeError("Attempting to prepend child to a different parent")
+            if child.parent is self:
+                self.remove(child)
+            child.parent = self  # may raise
             self._children.insert(0, child)
-            child.parent = self
         else:
             raise TypeError("Can only prepend a Node or iterable of Nodes as children")
         return self
-- 
2.43.0


From 0b35eb93543d74b3972bbc5a07162e9f2e6d2a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:35 +0000
Subject: [PATCH 29/57] fix: blocks inside lemmas, remarks and the like count
 one handrail for each around them, not two

---
 rsm/transformer.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 3b7cab6..3d2efed 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -362,14 +362,9 @@ class Transformer:
                 construct.types.append("assumption")
 
     def add_handrail_depth(self) -> None:
-        for nc in nodes.all_node_subtypes():
-            if nc.has_handrail:
-                self._add_handrail_depth_for_class(nc)
-
-    def _add_handrail_depth_for_class(self, nodeclass) -> None:
-        for node in self.tree.traverse(nodeclass=nodeclass):
+        for node in self.tree.traverse(condition=lambda n: n.has_handrail):
             for desc in node.traverse():
-                if desc == node:
+                if desc is node:
                     continue
                 desc.handrail_depth += 1
 
-- 
2.43.0


From f265c0714a88551ffb40de365ab331af0785fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:58 +0000
Subject: [PATCH 30/57] fix: errors are logged at 1-based positions, as lint
 messages are: editors took src:0:6 for no line at all

---
 rsm/tsparser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 3a0a94e..d9ac519 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -579,11 +579,12 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             end_row, end_col = cst_node.end_point
             logger.warning(
                 "The CST contains errors.",
+                # like the linter: editors count from 1, but TS from 0
                 extra=dict(
-                    start_row=start_row,
-                    start_col=start_col,
-                    end_row=end_row,
-                    end_col=end_col,
+                    start_row=start_row + 1,
+                    start_col=start_col + 1,
+                    end_row=end_row + 1,
+                    end_col=end_col + 1,
                 ),
             )
             ast_node = nodes.Error(
-- 
2.43.0


From 999d3c44464c448687b568373dd760763208d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 31/57] fix: make shows no log records below the level asked
 for when the linter runs

---
 rsm/rsmlogger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index 25121bc..4063c11 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -184,5 +184,4 @@ def _set_level(level: int) -> None:
     level = max(level, logging.DEBUG)
     logger.setLevel(level)
     for h in logger.handlers:
-        if h.level > level:
-            h.setLevel(level)
+        h.setLevel(level)
-- 
2.43.0


From 03148ae18687461abca9d767ce7a7529736f42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 32/57] fix: numbering nested steps takes time linear in their
 depth, not exponential, and no recursion

---
 rsm/nodes.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index c3080c7..26358ce 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -417,17 +417,27 @@ class Node:
     def full_number(self) -> str | None:
         if self.nonum:
             return None
-        ancestor = self.first_ancestor_of_type(self.number_within)
-        if not ancestor:
-            logger.warning(
-                f"{self.__class__.__name__} numbered within "
-                f"{self.number_within} but no such ancestor was found; "
-                "using root node instead"
-            )
-            ancestor = self.first_ancestor_of_type(Manuscript)
-        if ancestor and ancestor.full_number:
-            return f"{ancestor.full_number}.{self.number}"
-        return f"{self.number}" if self.number else ""
+        # neither recursive nor asking any ancestor twice: nodes may be deeply nested
+        chain: list[Node] = []
+        node: Optional[Node] = self
+        while node and not node.nonum and not isinstance(node, Manuscript):
+            chain.append(node)
+            ancestor = node.first_ancestor_of_type(node.number_within)
+            if not ancestor:
+                logger.warning(
+                    f"{node.__class__.__name__} numbered within "
+                    f"{node.number_within} but no such ancestor was found; "
+                    "using root node instead"
+                )
+                ancestor = node.first_ancestor_of_type(Manuscript)
+            node = ancestor
+        full_number = ""
+        for node in reversed(chain):
+            if full_number:
+                full_number = f"{full_number}.{node.number}"
+            else:
+                full_number = f"{node.number}" if node.number else ""
+        return full_number
 
     @property
     def reftext(self) -> str:
-- 
2.43.0


From eb5fd0168a020f5a414408a1ecbcc81e74812957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:11 +0000
Subject: [PATCH 33/57] fix: with handrails, a bibliography entry without DOI
 is reported once, by its label, and not again as {node}

---
 rsm/translator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 6a418d6..3277d8a 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1881,8 +1881,7 @@ class HandrailsTranslator(Translator):
         pat = r'(<a.*?class="bibitem-doi".*?>)\[link\]</a>'
         mobj = re.search(pat, text, flags=re.DOTALL)
         if mobj is None:
-            logger.warning("Unable to extract link from {node}")
-            return hr
+            return hr  # without a DOI, which has been reported already
 
         # ...remove it from the content zone...
         left, right = mobj.span()
-- 
2.43.0


From c9f9dc0240c4c617b8d86364c223f55d31e70cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:31 +0000
Subject: [PATCH 34/57] fix: an unknown citation is reported once, not also as
 a bibliography entry numbered within nothing

---
 rsm/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 26358ce..f621637 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -1578,6 +1578,10 @@ class UnknownBibitem(Bibitem):
         super().__init__(**kwargs)
         self.number = number
 
+    @property
+    def full_number(self) -> str:
+        return f"{self.number}"  # stands outside the tree, not within anything
+
 
 class Figure(NodeWithChildren):
     autonumber = True
-- 
2.43.0


From 1811971edb187124184aaf18027a3959ab5e3abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:59 +0000
Subject: [PATCH 35/57] fix: links copied from a title lead to the page itself,
 not to '#', and from an abstract to the abstract

---
 rsm/static/handrails.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index 8b584ff..9ca12fc 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -169,7 +169,7 @@ async function copyLink(target) {
   if (!hr.classList.contains("heading")) {
     anchor = hr.id;
   } else {
-    const section = hr.closest("section");
+    const section = hr.parentElement;  // not all headings belong to a <section>, see e.g. abstracts
     if (!section.classList.contains("level-1")) {
       anchor = section.id;
     } else {
@@ -180,7 +180,7 @@ async function copyLink(target) {
     launchToast("Could not copy link.", "error");
     return;
   }
-  link = `${url}#${anchor}`
+  link = needs_anchor ? `${url}#${anchor}` : url;
   try {
     await navigator.clipboard.writeText(link);
     launchToast("Link copied to clipboard.", "success");
-- 
2.43.0


From d0587cab108f8df6039341bbc8f0960413ea4021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:33 +0000
Subject: [PATCH 36/57] fix: a handrail that is collapsed or expanded changes
 its own icons, not those of handrails within it

---
 rsm/static/handrails.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index 9ca12fc..e63994a 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -71,7 +71,7 @@ function openHandrail(hr) {
   hr.classList.remove("hr-collapsed");
   const rest = getRest(hr);
   rest.forEach(el => { el.classList.remove("hide"); });
-  const icon = hr.querySelector("& .icon.expand");
+  const icon = hr.querySelector("& > .hr-collapse-zone .icon.expand, & > .hr-menu-zone .icon.expand");
   if (!icon) return;
   icon.classList.remove("expand");
   icon.classList.add("collapse");
@@ -89,7 +89,7 @@ function closeHandrail(hr) {
   hr.classList.add("hr-collapsed");
   const rest = getRest(hr);
   rest.forEach(el => { el.classList.add("hide"); });
-  const icon = hr.querySelector("& .icon.collapse");
+  const icon = hr.querySelector("& > .hr-collapse-zone .icon.collapse, & > .hr-menu-zone .icon.collapse");
   if (!icon) return;
   icon.classList.remove("collapse");
   icon.classList.add("expand");
@@ -125,7 +125,7 @@ export function collapseAll(target, withinSubproof = true) {
   }
 
   const hr = target.closest(".hr");
-  const ex_icon = hr.querySelector("& .icon.expand-all");
+  const ex_icon = hr.querySelector("& > .hr-menu-zone .icon.expand-all");
   if (ex_icon) {
     hr.querySelectorAll(qry).forEach(st => openHandrail(st));
     ex_icon.classList.remove("expand-all");
@@ -142,7 +142,7 @@ export function collapseAll(target, withinSubproof = true) {
     return;
   }
 
-  const co_icon = hr.querySelector("& .icon.collapse-all");
+  const co_icon = hr.querySelector("& > .hr-menu-zone .icon.collapse-all");
   if (co_icon) {
     hr.querySelectorAll(qry).forEach(st => closeHandrail(st));
     co_icon.classList.remove("collapse-all");
-- 
2.43.0


From 9383c95fde3bd1815ea72ea29f6d1046cfc184a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:33 +0000
Subject: [PATCH 37/57] fix: keyboard.js finds handrails.js next to itself,
 wherever onload() was told the scripts are

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index b669d10..ca84aa9 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -2,7 +2,7 @@
 //
 // Keyboard interaction
 //
-import { toggleHandrail, collapseAll } from '/static/handrails.js';
+import { toggleHandrail, collapseAll } from './handrails.js';
 
 export function setup(root) {
   // Nagivation: next or previous
-- 
2.43.0


From a48e716757da609668c599c93f908c067633fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:46 +0000
Subject: [PATCH 38/57] fix: H goes back to the top instead of raising a
 TypeError

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index ca84aa9..1aac647 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -25,7 +25,7 @@ export function setup(root) {
 
   // Navigation: back to top
   root.addEventListener('keydown', (event) => {
-    if (event.key == "H") { event.stopPropagation(); focusTop(); };
+    if (event.key == "H") { event.stopPropagation(); focusTop(root); };
   });
 
   // Basic actions on the currently focused element
-- 
2.43.0


From b207e75f1d1485b11b68d91c985265214449dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:46 +0000
Subject: [PATCH 39/57] fix: scrolling a page without table of contents, or
 with ':' in a label, raises no error for the floating minimap

---
 rsm/static/minimap.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/static/minimap.js b/rsm/static/minimap.js
index 491963e..4ffc446 100644
--- a/rsm/static/minimap.js
+++ b/rsm/static/minimap.js
@@ -20,6 +20,7 @@ export function setup() {
   window.addEventListener('scroll', () => {
     const toc_mm = document.querySelector(".toc-wrapper > .minimap");
     const float_mm = document.querySelector(".float-minimap-wrapper > .minimap");
+    if (!toc_mm || !float_mm) return;
     if (withinView(toc_mm, false)) {
       float_mm.classList.add("hide");
     } else {
@@ -36,7 +37,7 @@ export function setup() {
     if (isHidden) return;
 
     const lastInViewport = sections.findLast(sec => withinView(sec, true));
-    const circle = document.querySelector(`#mm-${lastInViewport?.id}`)
+    const circle = document.getElementById(`mm-${lastInViewport?.id}`);
     let percent;
     if (circle) {
       const circle_rect = circle.getBoundingClientRect();
-- 
2.43.0


From b5a4886063fbac1ba6ab913983f57aa820e32c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:58 +0000
Subject: [PATCH 40/57] fix: arrow keys leave closed menus alone and raise no
 TypeError where there is no menu

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 1aac647..a2339d2 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -118,7 +118,7 @@ function executeActiveMenuItem(el) {
 
 function menuUpOrDown(el, direction) {
   const menu = el.querySelector("& > .hr-menu-zone");
-  if (!getComputedStyle(menu).display == "none") return;
+  if (!menu || getComputedStyle(menu).display == "none") return;
 
   const qry = `
       & > .hr-menu > .hr-menu-item:hover,
-- 
2.43.0


From 48e647b516d6b7da9bb7eeaab4b64c56eb408c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 41/57] fix: arrow keys never leave two items of a menu active
 while the mouse is over a third

---
 rsm/static/keyboard.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index a2339d2..84a0f92 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -123,10 +123,9 @@ function menuUpOrDown(el, direction) {
   const qry = `
       & > .hr-menu > .hr-menu-item:hover,
       & > .hr-menu > .hr-menu-item:active,
-      & > .hr-menu > .hr-menu-item:focus,
-      & > .hr-menu > .hr-menu-item.active
+      & > .hr-menu > .hr-menu-item:focus
   `;
-  const currentItem = menu.querySelector(qry);
+  const currentItem = menu.querySelector("& > .hr-menu > .hr-menu-item.active") ?? menu.querySelector(qry);
   const allItems = Array.from(menu.querySelectorAll("& > .hr-menu > .hr-menu-item"));
 
   let index = allItems.indexOf(currentItem);
-- 
2.43.0


From e33537986d4aae5be4030629e2a3f45025a5db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 42/57] fix: Enter does what a click on the menu item does:
 proofs collapse all their steps, and links are copied

---
 rsm/static/handrails.js | 2 +-
 rsm/static/keyboard.js  | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index e63994a..4ff9b90 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -160,7 +160,7 @@ export function collapseAll(target, withinSubproof = true) {
 
 };
 
-async function copyLink(target) {
+export async function copyLink(target) {
   const url = document.location.href.split('#')[0];
   const hr = target.closest(".hr")
   let needs_anchor = true;
diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 84a0f92..862e8db 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -2,7 +2,7 @@
 //
 // Keyboard interaction
 //
-import { toggleHandrail, collapseAll } from './handrails.js';
+import { toggleHandrail, collapseAll, copyLink } from './handrails.js';
 
 export function setup(root) {
   // Nagivation: next or previous
@@ -108,7 +108,10 @@ function executeActiveMenuItem(el) {
       toggleHandrail(el);
       break;
     case "collapse-steps":
-      collapseAll(el);
+      collapseAll(el, el.classList.contains("step"));
+      break;
+    case "link":
+      copyLink(el);
       break;
     case true:
       console.log($`unknown item class: ${cls[0]}`);
-- 
2.43.0


From cf7446a89914a18ff78cb19d0d1c26f4871890e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:35 +0000
Subject: [PATCH 43/57] fix: ; leaves steps alone whose 'Collapse all' is
 disabled

---
 rsm/static/keyboard.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 862e8db..ee950d5 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -264,8 +264,8 @@ function toggleCollapse(el) {
 function toggleCollapseAll(el) {
   if (!el.classList.contains("hr")) return;
   const collAll = el.querySelector(`
-        & > .hr-menu-zone .collapse-all:not(.disabled),
-        & > .hr-menu-zone .expand-all:not(.disabled)
+        & > .hr-menu-zone .hr-menu-item:not(.disabled) > .collapse-all,
+        & > .hr-menu-zone .hr-menu-item:not(.disabled) > .expand-all
     `);
   const withinSubproof = el.classList.contains("step");
   if (collAll) collapseAll(el, withinSubproof);
-- 
2.43.0


From deeb54562e2eb3c4bd17cd16e52349fa89fff55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:08 +0000
Subject: [PATCH 44/57] fix: j and k no longer get stuck at a collapsed
 handrail within another one

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index ee950d5..3a41a79 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -286,7 +286,7 @@ function toggleMenu(el) {
 
 
 function isFocusable(el) {
-  if (el.classList.contains("hr-collapsed") && !el.classList.contains("hide")) return true;
+  if (el.classList.contains("hr-collapsed") && !el.closest(".hide")) return true;
   if (el.closest(".hr-collapsed") || el.closest(".hide")) return false;
   return true;
 }
-- 
2.43.0


From cb929f723643c30447f51d8d20dce97a9d023673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:20 +0000
Subject: [PATCH 45/57] fix: i on a reference copied into an open tooltip
 raises no error

---
 rsm/static/keyboard.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 3a41a79..49401e9 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -85,7 +85,8 @@ function focusTop(root) {
 
 
 function toggleTooltip(el) {
-  if (!el.classList.contains("tooltipstered")) return;
+  // references copied into a tooltip have the class but no tooltip of their own
+  if (!el.classList.contains("tooltipstered") || !$.tooltipster.instances(el).length) return;
   if ($(el).tooltipster("status").open) {
     $(el).tooltipster("close");
   } else {
-- 
2.43.0


From 9e65b8f058bc2a7194a67f17e95a08fb0be05101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:20 +0000
Subject: [PATCH 46/57] fix: every algorithm of a page is rendered, not only
 the first

---
 rsm/static/onload.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsm/static/onload.js b/rsm/static/onload.js
index 5c6071a..484fcf9 100644
--- a/rsm/static/onload.js
+++ b/rsm/static/onload.js
@@ -48,12 +48,12 @@ export async function onload(root = null, { path = "/static/", keys = true } = {
       await libs.loadPseudocode();
 
       const elements = document.querySelectorAll("pre.pseudocode");
-      if (elements.length) {
-        pseudocode.renderElement(elements[0], {
+      elements.forEach((el) => {
+        pseudocode.renderElement(el, {
           lineNumber: true,
           noEnd: true,
         });
-      }
+      });
     } catch (err) {
       console.error("Loading pseudocode FAILED!", err);
     }
-- 
2.43.0


From cc87069f601a4aac22dc257fcb0de3918dc32683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:34 +0000
Subject: [PATCH 47/57] fix: labels with characters that mean something in
 selectors get their tooltips, and cost no other its own

---
 rsm/static/tooltips.js | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index b63294b..0f84b0e 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -27,10 +27,6 @@ export function createTooltips() {
       }
       let content = "";
 
-      // escape '.' since it gets confused with a class
-      target = target.replaceAll(".", "\\.");
-      // escape ':' since it gets confused with the protocol
-      target = target.replaceAll(":", "\\:");
       if (target == "#") {
         content = '<span class="error">target node has no label</span>';
         setTooltipContent(instance, content);
@@ -38,6 +34,8 @@ export function createTooltips() {
         return;
       };
 
+      // any character may be part of a label, also those that mean something in selectors
+      target = document.getElementById(target.slice(1));
       let tag = $(target).prop('tagName');
 
       if (!$(target)[0]) {
-- 
2.43.0


From 8b43f432417ea243437c4fa051cb90a3a003fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:34 +0000
Subject: [PATCH 48/57] fix: tooltips of lemmas, proofs, code blocks and other
 blocks are no longer empty

---
 rsm/static/tooltips.js | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index 0f84b0e..fa68fff 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -80,13 +80,11 @@ export function createTooltips() {
           case Array.from(classes).filter(cls => ["math", "algorithm"].includes(cls)).length > 0:
             content = $(target).html();
             break;
-          case Array.from(classes).filter(cls => ["paragraph", "mathblock", "theorem", "proposition", "remark", "bibitem"].includes(cls)).length > 0:
+          default:
             clone = $(target).clone();
             stripHandrail(clone);
             content = $(clone).html();
             break;
-          case true:
-            console.log(`tooltip target DIV with unknown class: ${classes}`)
         }
       } else {
         console.log(`tooltip target with unknown tag ${tag}`);
-- 
2.43.0


From f5827a639493250c0ab96834486fca050346617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:12 +0000
Subject: [PATCH 49/57] fix: pointing at the table of contents of a page
 without handrails raises no error for its minimap

---
 rsm/static/minimap.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsm/static/minimap.js b/rsm/static/minimap.js
index 4ffc446..17ec2e5 100644
--- a/rsm/static/minimap.js
+++ b/rsm/static/minimap.js
@@ -64,6 +64,8 @@ function withinView(el, top = true) {
 
 
 function highlightMinimap(percent, name) {
-  document.getElementById(`stop-follow-${name}-1`).setAttribute("offset", `${percent}%`);
-  document.getElementById(`stop-follow-${name}-2`).setAttribute("offset", `${percent}%`);
+  // pages without handrails have a table of contents but no minimap
+  for (const n of [1, 2]) {
+    document.getElementById(`stop-follow-${name}-${n}`)?.setAttribute("offset", `${percent}%`);
+  }
 }
-- 
2.43.0


From f7115266e1d86edf158e8b7b38eb8689e5ba5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 50/57] fix: tooltips of lists are no longer empty

---
 rsm/static/tooltips.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index fa68fff..9bf3baf 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -58,7 +58,7 @@ export function createTooltips() {
         content = `<div>${content}</div>`;
       } else if (tag == "DT") {
         content = $(target).next().html();
-      } else if (tag == "TABLE") {
+      } else if (["TABLE", "UL", "OL"].includes(tag)) {
         content = $(target)[0].outerHTML;
       } else if (tag == "SECTION") {
         clone = $(target).clone();
-- 
2.43.0


From 7a5f087c04324db9607a7cfb44d34e18a6298fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:31 +0000
Subject: [PATCH 51/57] fix: rsm-make --serve rebuilds manuscripts whose path
 has spaces or quotes

---
 rsm/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsm/cli.py b/rsm/cli.py
index f3a68df..d58f2ba 100644
--- a/rsm/cli.py
+++ b/rsm/cli.py
@@ -124,9 +124,8 @@ def make() -> int:
 
     if args.serve:
         other_args = [a for a in sys.argv if a != "--serve"]
-        cmd = " ".join(other_args)
         server = livereload.Server()
-        server.watch(args.src, livereload.shell(cmd))
+        server.watch(args.src, livereload.shell(other_args))
         main(parser, app.make, args)
         server.serve(root=".")
     else:
-- 
2.43.0


From b0e8e0ddfd9bafbca63edfe136a9ec50b4a0c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:31 +0000
Subject: [PATCH 52/57] fix: escaped slashes and closing braces lose their
 backslash, as other escaped characters do

---
 rsm/tsparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index d9ac519..ba8a792 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -62,7 +62,7 @@ class RSMParserError(Exception):
         super().__init__(self.msg)
 
 
-DELIMS = ":%$`*{#"
+DELIMS = ":%$`*/{}#"
 PUSH_THESE_TYPES = {
     "ERROR",
     "appendix",
-- 
2.43.0


From 9943ad3c5d0ae7b1fa904285e3669d3594e38ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:04 +0000
Subject: [PATCH 53/57] fix: escaped characters in link texts, names, keywords
 and paragraph titles lose their backslash, as in other titles

---
 rsm/tsparser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index ba8a792..41389ae 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -436,6 +436,18 @@ def _normalize_text(root: TSNode) -> str:
             node.title = EscapedString(node.title, DELIMS).escape()
         if isinstance(node, (nodes.Manuscript, nodes.Theorem)):
             node.title = EscapedString(node.title, DELIMS).escape()
+        if isinstance(node, nodes.BaseParagraph) and getattr(node, "title", ""):
+            node.title = EscapedString(node.title, DELIMS).escape()
+        if isinstance(node, nodes.Author):
+            for key in ("name", "affiliation", "email"):
+                setattr(node, key, EscapedString(getattr(node, key), DELIMS).escape())
+        if isinstance(node, nodes.Abstract):
+            node.keywords = [EscapedString(k, DELIMS).escape() for k in node.keywords]
+            node.msc = [EscapedString(k, DELIMS).escape() for k in node.msc]
+        if isinstance(node, nodes.BaseReference):
+            node.overwrite_reftext = EscapedString(
+                node.overwrite_reftext, DELIMS
+            ).escape()
     
     return ""  # This function modifies nodes in place
 
-- 
2.43.0


From 91f770ece9360a13ca312716bcf42a8677c88acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:12 +0000
Subject: [PATCH 54/57] fix: escaped characters in reference texts lose their
 backslash, and braces in them raise no ValueError

---
 rsm/nodes.py    | 11 ++++++++---
 rsm/tsparser.py |  1 +
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index f621637..2a0bd88 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -441,9 +441,14 @@ class Node:
 
     @property
     def reftext(self) -> str:
-        return self.reftext_template.format(
-            nodeclass=self.__class__.__name__, number=self.full_number
-        ).strip()
+        template = self.reftext_template
+        try:
+            text = template.format(
+                nodeclass=self.__class__.__name__, number=self.full_number
+            )
+        except (LookupError, ValueError, AttributeError, TypeError):
+            text = template  # its braces are part of the text, not placeholders
+        return text.strip()
 
     def traverse(
         self,
diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 41389ae..cbec151 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -444,6 +444,7 @@ def _normalize_text(root: TSNode) -> str:
         if isinstance(node, nodes.Abstract):
             node.keywords = [EscapedString(k, DELIMS).escape() for k in node.keywords]
             node.msc = [EscapedString(k, DELIMS).escape() for k in node.msc]
+        node.reftext_template = EscapedString(node.reftext_template, DELIMS).escape()
         if isinstance(node, nodes.BaseReference):
             node.overwrite_reftext = EscapedString(
                 node.overwrite_reftext, DELIMS
-- 
2.43.0


From 8b8503d11e1db28f7918565e044d5ee84e8f416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:44 +0000
Subject: [PATCH 55/57] fix: moving the focus by key scrolls tall blocks to
 their top, not the other way

---
 rsm/static/keyboard.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 49401e9..667f219 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -319,11 +319,11 @@ function maybeScrollToMiddle(element, direction) {
   let scrollAmount;
   if (elementHeight > viewportHeight) {
     // element taller than viewport: just align its top with the top of the viewport
-    scrollAmount = -elementTop;
+    scrollAmount = elementTop;
   } else {
     // If scrolling would push the element's top above the viewport,
     // limit the scroll to align the top of the element with the top of the viewport
-    if (elementTop + offset < 0) scrollAmount = -elementTop;
+    if (elementTop - offset < 0) scrollAmount = elementTop;
     // Otherwise, scroll to center the element (if far enough from center)
     else if (farEnoughFromCenter) scrollAmount = offset;
     else return;
-- 
2.43.0


From 47c446eb1b41a86aa6ec09215b86af07ecf21758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:17 +0000
Subject: [PATCH 56/57] fix: prepend takes any iterable of nodes, and strings
 are refused rather than recursed into

---
 rsm/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 2a0bd88..1be30a0 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -952,7 +952,7 @@ class NodeWithChildren(Node):
         rsm.nodes.RSMNodeError: Attempting to append child to a new parent
 
         """
-        if isinstance(child, Iterable):
+        if isinstance(child, Iterable) and not isinstance(child, str):
             for c in child:
                 self.append(c)
         elif isinstance(child, Node):
@@ -974,8 +974,8 @@ class NodeWithChildren(Node):
         :meth:`append`
 
         """
-        if isinstance(child, list):
-            for c in reversed(child):
+        if isinstance(child, Iterable) and not isinstance(child, str):
+            for c in reversed(list(child)):
                 self.prepend(c)
         elif isinstance(child, Node):
             if child.parent and child.parent is not self:
-- 
2.43.0


From cb631af38f38c9008105471694ea01f8789699ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:17 +0000
Subject: [PATCH 57/57] fix: translating a long manuscript does not copy the
 page for every tag

---
 rsm/translator.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 3277d8a..e8efa6b 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -204,7 +204,7 @@ class AppendTextAndDefer(EditCommand):
         return self._edit_command_repr(["text", "deferred_text"])
 
     def execute(self, translator: "Translator") -> None:
-        translator.body += self.make_text()
+        translator.append_text(self.make_text())
         translator.deferred.append(AppendText(self.make_deferred_text()))
 
     def make_text(self) -> str:
@@ -222,7 +222,7 @@ class AppendText(EditCommand):
         return self._edit_command_repr(["_text"])
 
     def execute(self, translator: "Translator") -> None:
-        translator.body += self.make_text()
+        translator.append_text(self.make_text())
 
     def make_text(self) -> str:
         return self._text
@@ -529,10 +529,24 @@ class Translator:
 
     def __init__(self, quiet: bool = False):
         self.tree: nodes.Manuscript = None
-        self.body: str = ""
+        self._chunks: list[str] = []
         self.deferred: list[EditCommand] = []
         self.quiet = quiet
 
+    @property
+    def body(self) -> str:
+        """The HTML written so far."""
+        return "".join(self._chunks)
+
+    @body.setter
+    def body(self, text: str) -> None:
+        self._chunks = [text]
+
+    def append_text(self, text: str) -> None:
+        """Write at the end of the body."""
+        # adding to a string copies it, which takes quadratic time in long manuscripts
+        self._chunks.append(text)
+
     @classmethod
     def get_action_method(cls, node: nodes.Node, action: str) -> Callable:
         ogclass = node.__class__
-- 
2.43.0

