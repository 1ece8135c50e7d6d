From 699353e10b649db0e2bc5a6d84cd81d81837b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:27 +0000
Subject: [PATCH 01/42] fix: do not share the exit stack of temporary files
 between concurrently processed files

---
 .../auto_annotate_figure.py                       |  8 +++-----
 .../auto_annotate_fulltext.py                     |  7 +++----
 .../auto_annotate_utils.py                        | 15 +++++++++------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py b/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
index 8a14e86..d08d431 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
@@ -3,7 +3,7 @@ from __future__ import absolute_import
 import argparse
 import logging
 import os
-from contextlib import contextmanager
+from contextlib import ExitStack, contextmanager
 from tempfile import TemporaryDirectory
 from typing import Iterator, List
 
@@ -132,10 +132,8 @@ class AnnotatePipelineFactory(AbstractAnnotatePipelineFactory):
                 self.tag_to_tei_path_mapping[field] = 'note[@type="%s"]' % field
         self.annotator_config.use_sub_annotations = True
 
-    def get_final_source_url(self, source_url: str) -> str:
-        final_source_url_context = get_fixed_source_url(source_url)
-        self.file_exit_stack.push(final_source_url_context)
-        return final_source_url_context.__enter__()  # pylint: disable=no-member
+    def get_final_source_url(self, source_url: str, file_exit_stack: ExitStack) -> str:
+        return file_exit_stack.enter_context(get_fixed_source_url(source_url))
 
     def get_annotator(self, source_url: str):
         target_xml_path = self.get_target_xml_for_source_file(source_url)
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py b/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
index 97bb52e..a12f682 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 
 import argparse
 import logging
+from contextlib import ExitStack
 from typing import List
 
 from .core.annotation.annotator import AbstractAnnotator, Annotator
@@ -213,10 +214,8 @@ class AnnotatePipelineFactory(AbstractAnnotatePipelineFactory):
         self.expand_to_previous_untagged_lines = opt.expand_to_previous_untagged_lines
         self.expand_to_following_untagged_lines = opt.expand_to_following_untagged_lines
 
-    def get_final_source_url(self, source_url: str) -> str:
-        final_source_url_context = get_fixed_source_url(source_url)
-        self.file_exit_stack.push(final_source_url_context)
-        return final_source_url_context.__enter__()  # pylint: disable=no-member
+    def get_final_source_url(self, source_url: str, file_exit_stack: ExitStack) -> str:
+        return file_exit_stack.enter_context(get_fixed_source_url(source_url))
 
     def get_annotator(self, source_url: str):
         target_xml_path = self.get_target_xml_for_source_file(source_url)
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 4666bd2..3d65c8f 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -599,7 +599,6 @@ class AbstractAnnotatePipelineFactory(ABC):
                 line_number_ratio_threshold=opt.min_line_number_ratio,
             )
         )
-        self.file_exit_stack = ExitStack()
 
     @abstractmethod
     def get_annotator(self, source_url: str):
@@ -642,17 +641,21 @@ class AbstractAnnotatePipelineFactory(ABC):
             target_annotations=target_annotations
         )
 
-    def get_final_source_url(self, source_url: str) -> str:
+    def get_final_source_url(
+            self,
+            source_url: str,
+            file_exit_stack: ExitStack) -> str:  # pylint: disable=unused-argument
         return source_url
 
     def auto_annotate(self, source_url: str):
-        with self.file_exit_stack:
-            self._auto_annotate(source_url)
+        # Note: the exit stack must not be shared, files may be processed concurrently
+        with ExitStack() as file_exit_stack:
+            self._auto_annotate(source_url, file_exit_stack=file_exit_stack)
 
-    def _auto_annotate(self, source_url: str):
+    def _auto_annotate(self, source_url: str, file_exit_stack: ExitStack):
         try:
             output_xml_path = self.get_tei_xml_output_file_for_source_file(source_url)
-            final_source_url = self.get_final_source_url(source_url)
+            final_source_url = self.get_final_source_url(source_url, file_exit_stack)
             annotator = self.get_annotator(final_source_url)
             annotate_structured_document(
                 final_source_url,
-- 
2.43.0


From cb220b0f4173ae237bbef374cb218eef49be0191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:52 +0000
Subject: [PATCH 02/42] fix: do not repeat the tokens of previous lines when
 removing untagged tokens

---
 .../structured_document/grobid_training_tei.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 42754dc..1c480d3 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -706,9 +706,9 @@ class GrobidTrainingTeiStructuredDocument(AbstractStructuredDocument):
 
     def remove_all_untagged(self):
         updated_lines = []
-        current_result_line_tokens = []
         output_enabled = True
         for line in self._lines:
+            current_result_line_tokens = []
             for token in line.tokens:
                 if isinstance(token, TeiSpace):
                     if output_enabled:
-- 
2.43.0


From b69924559662962fdc4918bd8b8d9358336a90ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:22 +0000
Subject: [PATCH 03/42] fix: keep the attributes of the container element when
 writing the training TEI

---
 .../structured_document/grobid_training_tei.py                  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 1c480d3..e0db0ab 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -544,7 +544,9 @@ def _updated_tei_with_lines(
         raise RuntimeError('container node path not found: %s (namespaces=%s) (has %s)' % (
             container_node_path, namespaces, list(updated_root)
         ))
+    container_attrib = dict(container_node.attrib)
     container_node.clear()
+    container_node.attrib.update(container_attrib)
     _lines_to_tei(container_node, lines, tag_to_tei_path_mapping)
     return updated_root
 
-- 
2.43.0


From 080f8a6646b80518271aa1fa13324e5af05c60d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:22 +0000
Subject: [PATCH 04/42] fix: do not duplicate the text of additional container
 elements

---
 .../structured_document/grobid_training_tei.py                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index e0db0ab..66a2b66 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -544,6 +544,10 @@ def _updated_tei_with_lines(
         raise RuntimeError('container node path not found: %s (namespaces=%s) (has %s)' % (
             container_node_path, namespaces, list(updated_root)
         ))
+    # the lines contain the text of all of the matching container elements
+    for other_container_node in updated_root.findall(
+            container_node_path, namespaces=namespaces)[1:]:
+        other_container_node.getparent().remove(other_container_node)
     container_attrib = dict(container_node.attrib)
     container_node.clear()
     container_node.attrib.update(container_attrib)
-- 
2.43.0


From 11ef5ec4a57bf52dbcfa36b302bb225d08ce8235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:18 +0000
Subject: [PATCH 05/42] fix: keep the text following and within a reference id
 that is replaced by its text

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index f3b4917..a70c877 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -221,7 +221,8 @@ def add_text_to_tail_prefix(current: etree.Element, text: str):
 
 
 def replace_element_with_text(current: etree.Element, text: str):
-    add_text_to_previous(current, text)
+    # removing an element also removes the text following it (tail)
+    add_text_to_previous(current, text + (current.tail or ''))
     current.getparent().remove(current)
 
 
@@ -410,7 +411,7 @@ def change_annotation_to_matching_text(
     start_end = find_start_end_fn(text)
     if not start_end:
         LOGGER.debug('%s not found in: %r', find_start_end_fn.__name__, text)
-        replace_element_with_text(element, text)
+        replace_element_with_text(element, get_text_content(element))
         return
     start, end = start_end
     matching_text = text[start:end]
-- 
2.43.0


From 679203f0f95edf30ae49e13c1a52360e998aa4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:23 +0000
Subject: [PATCH 06/42] fix: keep the text order when narrowing an annotation
 containing other elements

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index a70c877..884d3d3 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -414,6 +414,9 @@ def change_annotation_to_matching_text(
         replace_element_with_text(element, get_text_content(element))
         return
     start, end = start_end
+    if len(element):
+        # the text is followed by child elements, it can not be moved after the element
+        end = len(text)
     matching_text = text[start:end]
     LOGGER.debug('matching: %s (%r, %s)', start_end, matching_text, find_start_end_fn.__name__)
     element.text = matching_text
-- 
2.43.0


From 65aa45d284bfe7c5d875e75eda5f9b8b71966163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:29 +0000
Subject: [PATCH 07/42] fix: keep the text order when adding sibling elements
 to a reference

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 884d3d3..d1d963d 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -227,10 +227,15 @@ def replace_element_with_text(current: etree.Element, text: str):
 
 
 def add_next_sibling_element(element: etree.Element, new_element: etree.Element):
+    # insert directly after the element, i.e. before the text following it (tail)
+    tail = element.tail
+    element.tail = None
     element.getparent().insert(
         element.getparent().index(element) + 1,
         new_element
     )
+    if tail:
+        new_element.tail = (new_element.tail or '') + tail
 
 
 def add_next_sibling_elements(element: etree.Element, new_elements: List[etree.Element]):
@@ -452,7 +457,7 @@ def add_annotation_to_element_text_if_matching(
         create_element_fn(matching_text),
         tail=text[end:]
     )
-    if as_next_sibling:
+    if as_next_sibling and not len(element):
         add_next_sibling_element(element, new_element)
     else:
         element.insert(0, new_element)
-- 
2.43.0


From e834f36cd33faef0e3e6d525dca1b7a3c5595ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:35 +0000
Subject: [PATCH 08/42] fix: keep the content of a DOI that is replaced by a
 link, and accept empty DOIs

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index d1d963d..72cb93c 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -629,14 +629,14 @@ def fix_doi(reference_element: etree.Element):
 
 def replace_doi_annotation_with_ext_link_if_url(reference_element: etree.Element):
     for doi_element in reference_element.xpath(JatsXpaths.DOI):
-        previous_text = get_previous_text(doi_element)
+        previous_text = get_previous_text(doi_element) or ''
         start_end = find_doi_url_prefix_valid_start_end(previous_text)
         if not start_end:
             LOGGER.debug('not matching doi url prefix: %r', previous_text)
             continue
         start, _ = start_end
         matching_doi_url_prefix = previous_text[start:]
-        doi_url = matching_doi_url_prefix + doi_element.text
+        doi_url = matching_doi_url_prefix + get_text_content(doi_element)
         LOGGER.debug('matching doi url prefix: %s (%r)', start_end, matching_doi_url_prefix)
         set_previous_text(doi_element, previous_text[:start])
         doi_element.getparent().replace(
-- 
2.43.0


From 357762a8a1785782b0bda8e62591709c5f5a4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:40 +0000
Subject: [PATCH 09/42] fix: use the right double quote as the counterpart of
 the left double quote

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 72cb93c..afa6d57 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -72,7 +72,7 @@ LEFT_QUOTE_CHARS = {'"', SpecialChars.LSQUO, SpecialChars.LDQUO}
 RIGHT_BY_LEFT_QUOTE_CHAR = {
     '"': '"',
     SpecialChars.LSQUO: SpecialChars.RSQUO,
-    SpecialChars.LDQUO: SpecialChars.RSQUO
+    SpecialChars.LDQUO: SpecialChars.RDQUO
 }
 
 
-- 
2.43.0


From 6121282a398a859118440463a4422632179f0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:34 +0000
Subject: [PATCH 10/42] fix: honour --min-line-number-ratio and
 --max-line-number-gap

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 3d65c8f..13bfffc 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -237,7 +237,7 @@ def add_annotation_pipeline_arguments(
         ])
     )
     line_no_group.add_argument(
-        '--min-line-number-ratio', type=str,
+        '--min-line-number-ratio', type=float,
         default=DEFAULT_LINE_NUMBER_RATIO_THRESHOLD,
         help=' '.join([
             'minimum ratio of line number candidates vs non-line number tokens',
@@ -596,6 +596,7 @@ class AbstractAnnotatePipelineFactory(ABC):
             use_line_number_annotator=opt.use_line_number_annotator,
             line_number_annotator_config=TextLineNumberAnnotatorConfig(
                 min_line_number=opt.min_line_numbers_per_page,
+                max_line_number_gap=opt.max_line_number_gap,
                 line_number_ratio_threshold=opt.min_line_number_ratio,
             )
         )
-- 
2.43.0


From 32d000d06133f5a6e0923b17c984a683fce9d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:19 +0000
Subject: [PATCH 11/42] fix: write annotated documents atomically, so that
 --resume does not skip partially written files

---
 .../grobid_training_tei.py                    |  7 ++-----
 sciencebeam_trainer_grobid_tools/utils/io.py  | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 66a2b66..22697fb 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -12,10 +12,6 @@ from apache_beam.io.filesystems import FileSystems
 from lxml import etree
 from lxml.builder import E
 
-from sciencebeam_utils.beam_utils.io import (
-    save_file_content
-)
-
 from sciencebeam_utils.utils.xml import (
     set_or_remove_attrib
 )
@@ -31,6 +27,7 @@ from sciencebeam_trainer_grobid_tools.core.structured_document import (
     strip_tag_prefix
 )
 
+from sciencebeam_trainer_grobid_tools.utils.io import save_file_content_atomically
 from sciencebeam_trainer_grobid_tools.utils.string import is_blank
 
 
@@ -748,4 +745,4 @@ def save_grobid_training_tei_structured_document(
         xml = etree.tostring(grobid_training_tei_structured_document.root)
     except Exception as e:
         raise RuntimeError('failed to convert to xml for %s due to %s' % (filename, e)) from e
-    save_file_content(filename, xml)
+    save_file_content_atomically(filename, xml)
diff --git a/sciencebeam_trainer_grobid_tools/utils/io.py b/sciencebeam_trainer_grobid_tools/utils/io.py
index b6756ad..8be9262 100644
--- a/sciencebeam_trainer_grobid_tools/utils/io.py
+++ b/sciencebeam_trainer_grobid_tools/utils/io.py
@@ -5,9 +5,13 @@ from pathlib import Path
 from shutil import copyfileobj
 from tempfile import TemporaryDirectory
 from typing import BinaryIO, Callable, Iterator, Union
+from uuid import uuid4
 
+from apache_beam.io.filesystem import CompressionTypes
 from apache_beam.io.filesystems import FileSystems
 
+from sciencebeam_utils.beam_utils.io import dirname, mkdirs_if_not_exists
+
 
 T_BinaryIO_Open_Function = Callable[[], BinaryIO]
 
@@ -37,3 +41,18 @@ def auto_download_input_file(
             with open(temp_file, mode='wb') as temp_fp:
                 copyfileobj(source, temp_fp)
         yield temp_file
+
+
+def save_file_content_atomically(output_filename: str, data: bytes):
+    """
+    Saves the data via a temporary file next to the output file,
+    an existing output file will therefore always be complete.
+    """
+    mkdirs_if_not_exists(dirname(output_filename))
+    temp_filename = '%s.%s.part' % (output_filename, uuid4().hex)
+    with FileSystems.create(
+        temp_filename,
+        compression_type=CompressionTypes.detect_compression_type(output_filename)
+    ) as f:
+        f.write(data)
+    FileSystems.rename([temp_filename], [output_filename])
-- 
2.43.0


From 903b80f18419ff92a985e353fbf5d98294d2ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:31 +0000
Subject: [PATCH 12/42] fix: report the positions of chunks found after the
 first search window

---
 sciencebeam_trainer_grobid_tools/utils/fuzzy.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
index 4596f99..df3fa27 100644
--- a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
+++ b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
@@ -392,6 +392,7 @@ def get_str_left_strided_matching_blocks_chunks(
         ):
             start_index += stride
             continue
+        matching_blocks = get_offset_matching_blocks(matching_blocks, a_offset=start_index)
         if (
             get_matching_blocks_b_gap_ratio(
                 haystack, needle, matching_blocks, isjunk=isjunk
@@ -456,12 +457,7 @@ def get_str_left_strided_matching_blocks_chunks(
                 )
                 for remaining_matching_blocks in remaining_matching_blocks_chunks
             ]
-        if not start_index:
-            return [matching_blocks]
-        return [[
-            (ai + start_index, bi, size)
-            for ai, bi, size in matching_blocks
-        ]]
+        return [matching_blocks]
     return []
 
 
-- 
2.43.0


From 86ceb78b4e14019b6a7458a181f122754030b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:40 +0000
Subject: [PATCH 13/42] fix: close the matching element after closing its
 unclosed descendants

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 9c76fed..f684942 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -207,6 +207,7 @@ class FixingHtmlParser(HTMLParser):
                 tag, self._current_tag
             )
             self._close_current_element()
+        self._close_current_element()
 
     def handle_data(self, data):
         LOGGER.debug('endtag: data=%r', data)
-- 
2.43.0


From 4ce01493e2f253b57c5db98abfd39b3a14792882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:46 +0000
Subject: [PATCH 14/42] fix: do not close the root element for an end tag not
 matching any open element

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index f684942..a6dd18e 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -194,6 +194,9 @@ class FixingHtmlParser(HTMLParser):
         if tag == self._current_tag:
             self._close_current_element()
             return
+        if tag not in self.tag_stack and len(self.tag_stack) == 1:
+            LOGGER.warning('end tag tag=%r not matching any open element, ignoring it', tag)
+            return
         if tag not in self.tag_stack:
             LOGGER.warning(
                 'end tag tag=%r not matching any open element, closing tag=%r',
-- 
2.43.0


From ef5191d5294eaa33ed070998461b1582e9a67535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:51 +0000
Subject: [PATCH 15/42] fix: accept XML with an encoding declaration when
 fixing malformed XML

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index a6dd18e..af1c257 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -225,7 +225,8 @@ class FixingHtmlParser(HTMLParser):
 def get_fixed_xml_str(xml_str: str) -> str:
     try:
         # return passed in xml if it is valid
-        etree.fromstring(xml_str)
+        # (using bytes because lxml rejects strings with an encoding declaration)
+        etree.fromstring(xml_str.encode('utf-8'))
         LOGGER.debug('passed in xml is valid, returning as is')
         return xml_str
     except etree.XMLSyntaxError:
-- 
2.43.0


From 34eac14509fd0795a64b2d91344327cddc998cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:58 +0000
Subject: [PATCH 16/42] fix: accept attributes without a value when fixing
 malformed XML

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index af1c257..727c3b7 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -173,7 +173,7 @@ class FixingHtmlParser(HTMLParser):
         LOGGER.debug('starttag: tag=%r, attrs=%s', tag, attrs)
         self.buffer.write(f'<{tag}')
         for key, value in attrs:
-            quoted_value = xml.sax.saxutils.quoteattr(value)
+            quoted_value = xml.sax.saxutils.quoteattr(value or '')
             self.buffer.write(f' {key}={quoted_value}')
         self.buffer.write('>')
         self.tag_stack.append(tag)
-- 
2.43.0


From f295ca8678ddd4ed77b9a7b1c3fa8507ec813eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:04 +0000
Subject: [PATCH 17/42] fix: treat all elements as regular elements when fixing
 malformed XML

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 727c3b7..40af7e1 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -166,6 +166,10 @@ class FixingHtmlParser(HTMLParser):
         self.buffer = StringIO()
         self.tag_stack = []
 
+    def set_cdata_mode(self, *_, **__):
+        # elements like "title" do not have a special meaning in XML
+        pass
+
     def error(self, message):
         raise RuntimeError('parser error: %r' % message)
 
-- 
2.43.0


From 77927c04eb41565f5953e98af58076f856a4becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:10 +0000
Subject: [PATCH 18/42] fix: keep the case of names when fixing malformed XML

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 40af7e1..d79325e 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import re
 import xml.sax.saxutils
 from contextlib import contextmanager
 from html.parser import HTMLParser
@@ -173,10 +174,21 @@ class FixingHtmlParser(HTMLParser):
     def error(self, message):
         raise RuntimeError('parser error: %r' % message)
 
+    def _get_original_case_name(self, lower_case_name: str, prefix: str, suffix: str) -> str:
+        # the HTML parser converts all of the names to lower case
+        m = re.search(
+            prefix + '(' + re.escape(lower_case_name) + ')' + suffix,
+            self.get_starttag_text(),
+            flags=re.IGNORECASE
+        )
+        return m.group(1) if m else lower_case_name
+
     def handle_starttag(self, tag, attrs):
         LOGGER.debug('starttag: tag=%r, attrs=%s', tag, attrs)
+        tag = self._get_original_case_name(tag, prefix=r'^<', suffix='')
         self.buffer.write(f'<{tag}')
         for key, value in attrs:
+            key = self._get_original_case_name(key, prefix=r'\s', suffix=r'\s*=')
             quoted_value = xml.sax.saxutils.quoteattr(value or '')
             self.buffer.write(f' {key}={quoted_value}')
         self.buffer.write('>')
@@ -189,7 +201,10 @@ class FixingHtmlParser(HTMLParser):
 
     @property
     def _current_tag(self):
-        return self.tag_stack[-1]
+        return self.tag_stack[-1].lower()
+
+    def _is_open_tag(self, tag: str) -> bool:
+        return any(open_tag.lower() == tag for open_tag in self.tag_stack)
 
     def handle_endtag(self, tag):
         if not self.tag_stack:
@@ -198,10 +213,10 @@ class FixingHtmlParser(HTMLParser):
         if tag == self._current_tag:
             self._close_current_element()
             return
-        if tag not in self.tag_stack and len(self.tag_stack) == 1:
+        if not self._is_open_tag(tag) and len(self.tag_stack) == 1:
             LOGGER.warning('end tag tag=%r not matching any open element, ignoring it', tag)
             return
-        if tag not in self.tag_stack:
+        if not self._is_open_tag(tag):
             LOGGER.warning(
                 'end tag tag=%r not matching any open element, closing tag=%r',
                 tag, self._current_tag
-- 
2.43.0


From b74f8b12ab48294765e990a4738cdf4dec5e6d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:43 +0000
Subject: [PATCH 19/42] fix: keep the sub tag of the text following a nested
 element or line break

---
 .../structured_document/grobid_training_tei.py     | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 22697fb..54686b6 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -134,8 +134,15 @@ class TokenWriter:
     def reset_next_tag(self):
         self.next_tag = None
 
-    def reset_next_sub_tag(self):
-        self.next_sub_tag = None
+    def restore_next_sub_tag(self, previous_sub_tag: Optional[str]):
+        prefix, _ = split_tag_prefix(self.next_sub_tag)
+        if prefix != B_TAG_PREFIX:
+            # already within the element of the previous sub tag
+            previous_sub_tag = add_tag_prefix(
+                strip_tag_prefix(previous_sub_tag),
+                prefix=I_TAG_PREFIX
+            )
+        self.next_sub_tag = previous_sub_tag
 
     def set_next_tag(self, tag: Optional[str], begin_tag: bool = True):
         self.next_tag = add_tag_prefix(
@@ -282,6 +289,7 @@ def _iter_extract_lines_from_element(
         parent_tagged_path: List[str] = None,
         begin_tag: bool = True) -> Iterable[TeiLine]:
     previous_tag = line_buffer.next_tag
+    previous_sub_tag = line_buffer.next_sub_tag
     current_tag = '/'.join(current_path) if current_path else None
     if has_direct_text(parent_element) or current_tag in root_paths:
         if not previous_tag:
@@ -310,7 +318,7 @@ def _iter_extract_lines_from_element(
     if not previous_tag:
         line_buffer.reset_next_tag()
     else:
-        line_buffer.reset_next_sub_tag()
+        line_buffer.restore_next_sub_tag(previous_sub_tag)
     line_buffer.append_text(parent_element.tail)
 
 
-- 
2.43.0


From b8c7650c9d50ea2548646762656bc106cb9317a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 20/42] fix: keep separate sub elements starting with
 whitespace

---
 .../structured_document/grobid_training_tei.py              | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 54686b6..57bf8aa 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -454,6 +454,7 @@ def _lines_to_tei(
     writer = XmlTreeWriter(parent)
     pending_space_tokens = []
     pending_reset_tag_values = set()
+    pending_reset_sub_tag_values = set()
     for line_index, line in enumerate(lines):
         if line_index:
             writer.append(E(TeiTagNames.LB))
@@ -470,6 +471,8 @@ def _lines_to_tei(
                 if main_prefix == B_TAG_PREFIX:
                     LOGGER.debug('adding to pending reset tags, for %s', token)
                     pending_reset_tag_values.add(main_tag)
+                if sub_prefix == B_TAG_PREFIX:
+                    pending_reset_sub_tag_values.add(sub_tag)
                 pending_space_tokens.append(token)
                 continue
             main_required_path = _get_tag_required_path(main_tag, tag_to_tei_path_mapping)
@@ -504,7 +507,7 @@ def _lines_to_tei(
                     main_full_tag
                 )
                 writer.require_path([], token=token)
-            elif sub_prefix == B_TAG_PREFIX:
+            elif sub_prefix == B_TAG_PREFIX or sub_tag in pending_reset_sub_tag_values:
                 sub_parent_path = sub_required_path[:-1]
                 LOGGER.debug(
                     'found begin sub prefix, resetting sub path to parent %s, for %s',
@@ -513,6 +516,7 @@ def _lines_to_tei(
                 writer.require_path_or_below(sub_parent_path, token=token)
 
             pending_reset_tag_values.clear()
+            pending_reset_sub_tag_values.clear()
 
             required_path: List[str] = (
                 sub_required_path if sub_full_tag
-- 
2.43.0


From 5f0caf4837b2f0d7ca9964a3659481d640fbbd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:54 +0000
Subject: [PATCH 21/42] fix: keep line breaks of documents using the TEI
 namespace

---
 .../structured_document/grobid_training_tei.py               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 57bf8aa..6247609 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -302,7 +302,7 @@ def _iter_extract_lines_from_element(
     LOGGER.debug('current_path: %s', current_path)
 
     for child_element in parent_element:
-        if child_element.tag == TeiTagNames.LB:
+        if etree.QName(child_element).localname == TeiTagNames.LB:
             yield line_buffer.flush()
 
         child_path = current_path + [_node_to_tag_expression(child_element)]
@@ -452,12 +452,13 @@ def _lines_to_tei(
     if tag_to_tei_path_mapping is None:
         tag_to_tei_path_mapping = {}
     writer = XmlTreeWriter(parent)
+    lb_tag = etree.QName(etree.QName(parent).namespace, TeiTagNames.LB)
     pending_space_tokens = []
     pending_reset_tag_values = set()
     pending_reset_sub_tag_values = set()
     for line_index, line in enumerate(lines):
         if line_index:
-            writer.append(E(TeiTagNames.LB))
+            writer.append(etree.Element(lb_tag))
         for token in line.tokens:
             main_full_tag = token.attrib.get(TAG_ATTRIB_NAME)
             if not main_full_tag:
-- 
2.43.0


From 24b37d4a65bfec7ceb0a597c839b0b01c55b6e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:00 +0000
Subject: [PATCH 22/42] fix: accept comments and processing instructions within
 the annotated text

---
 .../structured_document/grobid_training_tei.py               | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 6247609..b0712d9 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -302,6 +302,11 @@ def _iter_extract_lines_from_element(
     LOGGER.debug('current_path: %s', current_path)
 
     for child_element in parent_element:
+        if not isinstance(child_element.tag, str):
+            # comments and processing instructions
+            line_buffer.append_text(child_element.tail)
+            continue
+
         if etree.QName(child_element).localname == TeiTagNames.LB:
             yield line_buffer.flush()
 
-- 
2.43.0


From 32e5aa50897dbfb0a51f6f622afc2571318beecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:06 +0000
Subject: [PATCH 23/42] fix: accept empty attributes and attributes containing
 slashes

---
 .../structured_document/grobid_training_tei.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index b0712d9..ee6ad64 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -251,7 +251,7 @@ def _to_text_token(text: str, *args, **kwargs) -> TeiText:
 
 
 def _parse_tag_expression(tag_expression):
-    match = re.match(r'^([^\[]+)(\[@?([^=]+)="(.+)"\])?$', tag_expression)
+    match = re.match(r'^([^\[]+)(\[@?([^=]+)="(.*)"\])?$', tag_expression)
     if not match:
         raise ValueError('invalid tag expression: %s' % tag_expression)
     get_logger().debug('match: %s', match.groups())
@@ -408,7 +408,7 @@ def _get_element_at_path(current_element, current_path, required_path, token):
 
 
 def _split_path(path_str: str) -> List[str]:
-    return regex.split(r'(?<!\{[^}]*)/', path_str)
+    return regex.split(r'(?<!\{[^}]*)(?<!\[[^\]]*)/', path_str)
 
 
 def _get_tag_required_path(
-- 
2.43.0


From 022ea7680fbe6d229586edeeed78e70c4d71c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:34 +0000
Subject: [PATCH 24/42] fix: recognise preserved page numbers with tag prefix

---
 .../annotation/segmentation_annotator.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
index 940d378..c6cfd6f 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
@@ -133,7 +133,7 @@ def _get_line_token_tag_values(*args, **kwargs) -> List[Optional[str]]:
 def _get_line_token_tags_or_preserved_tags(
         structured_document: GrobidTrainingTeiStructuredDocument, line) -> List[str]:
     return [
-        structured_document.get_tag_or_preserved_tag(token)
+        structured_document.get_tag_or_preserved_tag_value(token)
         for token in structured_document.get_tokens_of_line(line)
     ]
 
-- 
2.43.0


From 667dc8cff1d923476306aae7f08d490d1a99e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:39 +0000
Subject: [PATCH 25/42] fix: restore the original tags after annotating sub
 tags only

---
 sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
index e214e7b..f103867 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
@@ -43,7 +43,6 @@ class SubTagOnlyAnnotator(SimpleMatchingAnnotator):
         super().annotate(structured_document)
         # restore original tags (but now with auto-annotated sub-tags)
         for token, preserved_tag in token_preserved_tags:
-            preserved_tag = structured_document.get_tag_or_preserved_tag(token)
             LOGGER.debug('restoring preserved tag: %r -> %r', token, preserved_tag)
             structured_document.set_tag_only(token, preserved_tag)
         return structured_document
-- 
2.43.0


From 67c0562368e8a3ea6e9cf7844b43721b0104c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:21 +0000
Subject: [PATCH 26/42] fix: do not start a new element for an ignored sub tag

---
 .../structured_document/grobid_training_tei.py                   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index ee6ad64..3f3810e 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -492,6 +492,7 @@ def _lines_to_tei(
                     'ignoring sub tag outside main path: %s (%s)',
                     sub_tag, sub_required_path
                 )
+                sub_prefix = None
                 sub_tag = None
                 sub_full_tag = None
                 sub_required_path = []
-- 
2.43.0


From 9e507fc6be2685d284af497a7e90114907fa00d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:07 +0000
Subject: [PATCH 27/42] fix: do not name temporary files of annotated documents
 like input files

---
 sciencebeam_trainer_grobid_tools/utils/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/io.py b/sciencebeam_trainer_grobid_tools/utils/io.py
index 8be9262..8f73fe8 100644
--- a/sciencebeam_trainer_grobid_tools/utils/io.py
+++ b/sciencebeam_trainer_grobid_tools/utils/io.py
@@ -48,8 +48,10 @@ def save_file_content_atomically(output_filename: str, data: bytes):
     Saves the data via a temporary file next to the output file,
     an existing output file will therefore always be complete.
     """
-    mkdirs_if_not_exists(dirname(output_filename))
-    temp_filename = '%s.%s.part' % (output_filename, uuid4().hex)
+    output_dirname = dirname(output_filename)
+    mkdirs_if_not_exists(output_dirname)
+    # Note: a remaining temporary file must not match the pattern of any input files
+    temp_filename = FileSystems.join(output_dirname, '%s.part' % uuid4().hex)
     with FileSystems.create(
         temp_filename,
         compression_type=CompressionTypes.detect_compression_type(output_filename)
-- 
2.43.0


From 1abf2e9c8899ab0b36362e5289f6c7adc74ad936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:21 +0000
Subject: [PATCH 28/42] fix: decompress local compressed XML files

---
 sciencebeam_trainer_grobid_tools/utils/io.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/io.py b/sciencebeam_trainer_grobid_tools/utils/io.py
index 8f73fe8..86ea1ce 100644
--- a/sciencebeam_trainer_grobid_tools/utils/io.py
+++ b/sciencebeam_trainer_grobid_tools/utils/io.py
@@ -16,6 +16,12 @@ from sciencebeam_utils.beam_utils.io import dirname, mkdirs_if_not_exists
 T_BinaryIO_Open_Function = Callable[[], BinaryIO]
 
 
+def is_compressed_file_url(file_url: str) -> bool:
+    return (
+        CompressionTypes.detect_compression_type(file_url) != CompressionTypes.UNCOMPRESSED
+    )
+
+
 @contextmanager
 def auto_download_input_file(
     file_url_or_open_fn: Union[str, T_BinaryIO_Open_Function]
@@ -27,15 +33,14 @@ def auto_download_input_file(
     else:
         open_fn = file_url_or_open_fn
 
-    if file_url and '://' not in file_url:
+    if file_url and '://' not in file_url and not is_compressed_file_url(file_url):
         yield file_url
         return
     with TemporaryDirectory(suffix='-input') as temp_dir:
+        # Note: the temporary file is not compressed, its name should not suggest it is
+        temp_file = os.path.join(temp_dir, 'temp.file')
         if file_url:
-            temp_file = os.path.join(temp_dir, os.path.basename(file_url))
             open_fn = partial(FileSystems.open, file_url)
-        else:
-            temp_file = os.path.join(temp_dir, 'temp.file')
         assert open_fn is not None
         with open_fn() as source:
             with open(temp_file, mode='wb') as temp_fp:
-- 
2.43.0


From 533048c92c48d5d6f13cbf5c336037faf8a89798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:48 +0000
Subject: [PATCH 29/42] fix: add the missing space between elements also after
 text containing a line feed

---
 .../annotation/target_annotation.py                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
index 35ff79e..ab42a2d 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
@@ -49,7 +49,7 @@ def contains_raw_text(element: etree.Element) -> bool:
 
 
 def is_ends_with_word(text: str) -> bool:
-    return re.match(r'.*\w$', text) is not None
+    return re.search(r'\w$', text) is not None
 
 
 def is_starts_with_word(text: str) -> bool:
-- 
2.43.0


From f19c3effd86b8dd100307647f6e160560791a620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:55 +0000
Subject: [PATCH 30/42] fix: do not include comments in target values with
 excluded elements

---
 .../core/annotation/target_annotation.py                     | 5 ++++-
 sciencebeam_trainer_grobid_tools/utils/xml.py                | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
index 9b9449a..6f81e8d 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
@@ -245,7 +245,10 @@ def extract_children(
     if unmatched_parent_text:
         value = get_stripped_text_content(
             parent,
-            exclude=set(other_child_nodes) | used_nodes
+            exclude=(
+                set(other_child_nodes) | used_nodes
+                | set(parent.iter(etree.Comment, etree.ProcessingInstruction))
+            )
         ).strip()
         if value and value not in text_content_list:
             text_content_list.append(value)
diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index d79325e..f389e67 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -33,7 +33,7 @@ def iter_text_content_and_exclude(
     if node.text is not None:
         yield node.text
     for child in node.iterchildren():
-        if child not in exclude:
+        if child not in exclude and isinstance(child.tag, str):
             yield from iter_text_content_and_exclude(child, exclude=exclude)
         if child.tail:
             yield child.tail
-- 
2.43.0


From a7ccbd88e7731d24be9193c427446740f53f06aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:21 +0000
Subject: [PATCH 31/42] fix: accept empty elements as the limits of a range of
 values

---
 .../core/annotation/target_annotation.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
index 6f81e8d..a7f8fc9 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
@@ -196,7 +196,7 @@ def extract_children_range(parent, children_range):
             parent, [range_item.get('min'), range_item.get('max')]
         )
         if len(temp_values) == 2:
-            temp_values = strip_all(temp_values)
+            temp_values = [s.strip() for s in temp_values]
             if all(s.isdigit() for s in temp_values):
                 num_values = [int(s) for s in temp_values]
                 range_values = [str(x) for x in range(num_values[0], num_values[1] + 1)]
-- 
2.43.0


From a22e8de8a3e771f74cd08c1557cc49575e6fb6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:03 +0000
Subject: [PATCH 32/42] fix: keep the options of selected sub fields

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 13bfffc..e74604f 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -340,7 +340,7 @@ def get_sub_field_for_key_or_none(key: str) -> Optional[str]:
     sub_prefix = field_name + XmlMappingSuffix.SUB + '.'
     if not key.startswith(sub_prefix):
         return None
-    return key[len(sub_prefix):]
+    return get_mapping_key_field_name(key[len(sub_prefix):])
 
 
 def is_key_selected_sub_fields_or_no_sub_field(
-- 
2.43.0


From fcebbb9f7407f373472cb4f784f72f45337febf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:00 +0000
Subject: [PATCH 33/42] fix: use the directory of the file list as the default
 base path

---
 sciencebeam_trainer_grobid_tools/download_source_files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 1b61985..6e3cdfe 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -154,7 +154,10 @@ class FileList(object):
 
 def load_file_list_from_config(file_list_config, limit):
     return FileList(
-        base_path=file_list_config['base_path'],
+        base_path=(
+            file_list_config['base_path']
+            or os.path.dirname(file_list_config['file_list'])
+        ),
         file_list=load_file_list(
             file_list_config['file_list'],
             column=file_list_config['file_column'],
-- 
2.43.0


From df3cdf52ecdce33dd04decf5f897f6b9328f3469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:50 +0000
Subject: [PATCH 34/42] fix: do not continue the address of an affiliation in
 the next one

---
 .../annotation/merge_group_tags_annotator.py              | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py
index b88487a..d8ce2be 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py
@@ -7,6 +7,8 @@ from sciencebeam_trainer_grobid_tools.core.annotation.annotator import (
 
 from sciencebeam_trainer_grobid_tools.core.structured_document import (
     add_tag_prefix,
+    split_tag_prefix,
+    B_TAG_PREFIX,
     I_TAG_PREFIX
 )
 
@@ -49,8 +51,12 @@ class MergeGroupTagsPostProcessingAnnotator(AbstractAnnotator):
         for token in all_tokens_iterable:
             if tag_level:
                 # if we looking at sub tags, then only consider tokens with a tag
-                if not structured_document.get_tag_or_preserved_tag(token):
+                parent_tag = structured_document.get_tag_or_preserved_tag(token)
+                if not parent_tag:
                     continue
+                if split_tag_prefix(parent_tag)[0] == B_TAG_PREFIX:
+                    # the group does not continue in the next parent
+                    current_group_tag = None
             tag = structured_document.get_tag_or_preserved_tag_value(token, level=tag_level)
             if tag:
                 current_group_tag = self.config.get_group_tag_for_tag_fn(tag)
-- 
2.43.0


From cdd456f6d2158505cc68137f58818facf089f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:53 +0000
Subject: [PATCH 35/42] fix: keep the closing bracket belonging to a DOI

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index afa6d57..5ed29e3 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -332,8 +332,11 @@ def find_doi_start_end(text: str) -> Optional[Tuple[int, int]]:
         doi = remove_duplicate_doi(doi)
         doi = doi.rstrip(';')
         char_counts = Counter(doi)
-        if char_counts[']'] > char_counts['[']:
-            doi = doi.rstrip(']').rstrip()
+        while doi.endswith(']') and char_counts[']'] > char_counts['[']:
+            # brackets belonging to the doi are kept
+            doi = doi[:-1]
+            char_counts[']'] -= 1
+        doi = doi.rstrip()
         start_end = (start, start + len(doi))
         extracted_doi = text[start:start_end[1]]
         assert extracted_doi == doi, 'expect %r to be %r' % (extracted_doi, doi)
-- 
2.43.0


From c3a0642a5613a9ccd21a1af8318e5b3b68de984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:45 +0000
Subject: [PATCH 36/42] fix: do not split an annotation at the preserved start
 of a space

An existing element starting with a space (re)started the element of the next
token of the same tag, although that token was annotated as the continuation of
another annotation. The value found was written as two elements.
---
 .../structured_document/grobid_training_tei.py  | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 3f3810e..9ac9c06 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -466,19 +466,21 @@ def _lines_to_tei(
             writer.append(etree.Element(lb_tag))
         for token in line.tokens:
             main_full_tag = token.attrib.get(TAG_ATTRIB_NAME)
-            if not main_full_tag:
+            is_preserved_tag = not main_full_tag
+            if is_preserved_tag:
                 main_full_tag = token.attrib.get(PRESERVED_TAG_ATTRIB_NAME)
             sub_full_tag = token.attrib.get(SUB_TAG_ATTRIB_NAME)
-            if not sub_full_tag:
+            is_preserved_sub_tag = not sub_full_tag
+            if is_preserved_sub_tag:
                 sub_full_tag = token.attrib.get(PRESERVED_SUB_TAG_ATTRIB_NAME)
             main_prefix, main_tag = split_tag_prefix(main_full_tag)
             sub_prefix, sub_tag = split_tag_prefix(sub_full_tag)
             if not token.stripped_text:
                 if main_prefix == B_TAG_PREFIX:
                     LOGGER.debug('adding to pending reset tags, for %s', token)
-                    pending_reset_tag_values.add(main_tag)
+                    pending_reset_tag_values.add((main_tag, is_preserved_tag))
                 if sub_prefix == B_TAG_PREFIX:
-                    pending_reset_sub_tag_values.add(sub_tag)
+                    pending_reset_sub_tag_values.add((sub_tag, is_preserved_sub_tag))
                 pending_space_tokens.append(token)
                 continue
             main_required_path = _get_tag_required_path(main_tag, tag_to_tei_path_mapping)
@@ -508,13 +510,16 @@ def _lines_to_tei(
                     main_parent_path, main_full_tag
                 )
                 writer.require_path(main_parent_path, token=token)
-            elif main_tag in pending_reset_tag_values:
+            elif (main_tag, is_preserved_tag) in pending_reset_tag_values:
                 LOGGER.debug(
                     'found begin prefix via preceding space, resetting path: %s',
                     main_full_tag
                 )
                 writer.require_path([], token=token)
-            elif sub_prefix == B_TAG_PREFIX or sub_tag in pending_reset_sub_tag_values:
+            elif (
+                sub_prefix == B_TAG_PREFIX
+                or (sub_tag, is_preserved_sub_tag) in pending_reset_sub_tag_values
+            ):
                 sub_parent_path = sub_required_path[:-1]
                 LOGGER.debug(
                     'found begin sub prefix, resetting sub path to parent %s, for %s',
-- 
2.43.0


From cd6a4b0b23a5e20dfa56fdd6897930260ca9d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:08 +0000
Subject: [PATCH 37/42] fix: normalise the label used by the prefix pattern of
 a value

---
 .../annotation/simple_matching_annotator.py                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
index 90a53ca..a408445 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
@@ -448,7 +448,9 @@ class SimpleMatchingAnnotator(AbstractAnnotator):
             for sub_annotation in sub_annotations:
                 if isinstance(sub_annotation.value, list):
                     continue
-                placeholders[sub_annotation.name] = sub_annotation.value
+                placeholders[sub_annotation.name] = normalise_and_remove_junk_str(
+                    sub_annotation.value
+                )
         return placeholders
 
     def resolve_regex_placeholders(self, regex_pattern: str, placeholders: Dict[str, str]) -> str:
-- 
2.43.0


From fde1a5c401869d659eab50cf4da7ac3daab52893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:08 +0000
Subject: [PATCH 38/42] fix: keep the positions of sub values after a letter of
 a different length in lower case

---
 .../annotation/simple_matching_annotator.py                 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
index a408445..c53eb67 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
@@ -528,8 +528,10 @@ class SimpleMatchingAnnotator(AbstractAnnotator):
         LOGGER.debug('processing sub annotations: %s', sub_annotations)
         tokens = list(text.iter_tokens_between(index_range))
         LOGGER.debug('sub_tokens: %s', tokens)
-        sub_text = SequencesText([SequenceWrapper(structured_document, tokens)])
-        sub_text_str = str(sub_text).lower()
+        sub_text = SequencesText([
+            SequenceWrapper(structured_document, tokens, str_filter_f=str.lower)
+        ])
+        sub_text_str = str(sub_text)
         LOGGER.debug('sub_text_str: %r', sub_text_str)
         for sub_annotation in sub_annotations:
             sub_tag_name = sub_annotation.name
-- 
2.43.0


From 40e5bf8bb2162af7879ff43a86bdb68506ded610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 39/42] fix: keep the text of CDATA sections when repairing XML

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index f389e67..ff3163b 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -235,6 +235,11 @@ class FixingHtmlParser(HTMLParser):
         LOGGER.debug('endtag: data=%r', data)
         self.buffer.write(xml.sax.saxutils.escape(data))
 
+    def unknown_decl(self, data):
+        # the text of a CDATA section
+        if data.startswith('CDATA['):
+            self.handle_data(data[len('CDATA['):])
+
     def close(self) -> None:
         super().close()
         while self.tag_stack:
-- 
2.43.0


From 2ddaf742550a04f9eb385607c0ecd4850ea63bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:13 +0000
Subject: [PATCH 40/42] fix: keep the text following the container outside of
 it

---
 .../structured_document/grobid_training_tei.py   | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 9ac9c06..fc04280 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -319,12 +319,12 @@ def _iter_extract_lines_from_element(
             parent_tagged_path=parent_tagged_path,
             begin_tag=begin_tag
         )
+        line_buffer.append_text(child_element.tail)
 
     if not previous_tag:
         line_buffer.reset_next_tag()
     else:
         line_buffer.restore_next_sub_tag(previous_sub_tag)
-    line_buffer.append_text(parent_element.tail)
 
 
 def _iter_extract_lines_from_container_elements(
@@ -552,6 +552,16 @@ def _lines_to_tei(
     return parent
 
 
+def _remove_element_keeping_tail(element: etree.Element):
+    parent = element.getparent()
+    previous = element.getprevious()
+    if element.tail and previous is not None:
+        previous.tail = (previous.tail or '') + element.tail
+    elif element.tail:
+        parent.text = (parent.text or '') + element.tail
+    parent.remove(element)
+
+
 def _updated_tei_with_lines(
         original_root: etree.Element,
         lines: list,
@@ -568,10 +578,12 @@ def _updated_tei_with_lines(
     # the lines contain the text of all of the matching container elements
     for other_container_node in updated_root.findall(
             container_node_path, namespaces=namespaces)[1:]:
-        other_container_node.getparent().remove(other_container_node)
+        _remove_element_keeping_tail(other_container_node)
     container_attrib = dict(container_node.attrib)
+    container_tail = container_node.tail
     container_node.clear()
     container_node.attrib.update(container_attrib)
+    container_node.tail = container_tail
     _lines_to_tei(container_node, lines, tag_to_tei_path_mapping)
     return updated_root
 
-- 
2.43.0


From afccb05de1ca53db75e772ee8c5f6aeba4c70f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:48 +0000
Subject: [PATCH 41/42] fix: move the trailing comma out of titles containing
 line breaks

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 5ed29e3..8adb631 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -90,7 +90,7 @@ WOS_PATTERN = r'(?:WOS\s*\:\s*)(\d{15,15})\b'
 
 DOI_URL_PREFIX_PATTERN = r'((?:https?\s*\:\s*/\s*/\s*)?(?:[a-z]+\s*\.\s*)?doi\s*.\s*org\s*/\s*)'
 
-ARTICLE_TITLE_PATTERN = r'^(.*?)(\;\s*PMC\d+|\s*,\s*)?$'
+ARTICLE_TITLE_PATTERN = r'(?s)^(.*?)(\;\s*PMC\d+|\s*,\s*)?$'
 
 
 DOI_TRUNCATE_AT_TOKENS = {'PubMed', 'PMID', 'PMCID', 'Error', 'Epub', 'Accessed'}
-- 
2.43.0


From 447deeeaf2cb47b75f63160493c490ef4224569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:48 +0000
Subject: [PATCH 42/42] fix: annotate only the first id found in the comments
 of a reference

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 8adb631..d78ec64 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -518,7 +518,7 @@ def add_annotation_to_element_if_matching(
                 create_element_fn=create_element_fn,
                 as_next_sibling=True
             ):
-                break
+                return True
     return False
 
 
-- 
2.43.0

