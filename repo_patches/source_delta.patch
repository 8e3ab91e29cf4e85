From 0abce9b8b323c71ce3af0e4f4ef93066dc4f0797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 01/75] fix: escape XML special characters in text and
 attribute values written by Writer

---
 src/autosar/xml/writer.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 892c42b..c2a8df5 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -4,6 +4,7 @@ ARXML writer module
 # pylint: disable=consider-using-with, duplicate-code
 from io import StringIO
 from typing import TextIO
+from xml.sax.saxutils import escape
 import sys
 import math
 import decimal
@@ -102,6 +103,7 @@ class _XMLWriter:
 
     def _add_content(self, tag: str, content: str = '', attr: TupleList = None, inline: bool = False):
         assert isinstance(content, str)
+        content = self._escape_text(content)
         if attr:
             if content:
                 text = f'<{tag} {self._attr_to_str(attr)}>{content}</{tag}>'
@@ -121,9 +123,21 @@ class _XMLWriter:
         """
         Converts pairs (2-tuples) into attribute XML string
         """
-        parts = [f'{elem[0]}="{elem[1]}"' for elem in attr]
+        parts = [f'{elem[0]}="{self._escape_attr(elem[1])}"' for elem in attr]
         return ' '.join(parts)
 
+    def _escape_text(self, text: str) -> str:
+        """
+        Escapes characters that have special meaning in XML character data
+        """
+        return escape(text, {'\r': '&#13;'})
+
+    def _escape_attr(self, text: str) -> str:
+        """
+        Escapes characters that have special meaning inside double-quoted XML attribute values
+        """
+        return escape(text, {'"': '&quot;', '\r': '&#13;', '\n': '&#10;', '\t': '&#9;'})
+
     def _format_float(self, value: float) -> str:
         """
         Formats a float into a printable number string.
@@ -705,7 +719,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.EmphasisText):
                 self._write_emphasis_text(part, inline=True)
             elif isinstance(part, ar_element.IndexEntry):
@@ -785,7 +799,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -815,7 +829,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -845,7 +859,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -925,7 +939,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.Subscript):
                 self._write_subscript(part)
             elif isinstance(part, ar_element.Superscript):
-- 
2.43.0


From b2a66964c8d2dec2658a23bc7eb1c23a4e97218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 02/75] fix: read mixed text content completely (inline
 elements before TT branch, text after inline elements)

---
 src/autosar/xml/reader.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5c4efe6..a07be73 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -866,13 +866,13 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             else:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_overview_paragraph(self,
                                                 xml_elem: ElementTree.Element) -> MultiLanguageOverviewParagraph:
@@ -923,7 +923,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT', 'TRACE-REF', 'XREF'}:
                 # These elements are not yet supported
@@ -932,7 +932,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_language_paragraph(self, xml_elem: ElementTree.Element) -> ar_element.LanguageParagraph:
         """
@@ -978,7 +978,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT',
                                         'STD',
@@ -993,7 +993,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_mixed_content_for_verbatim(self,
                                          xml_elem: ElementTree.Element,
@@ -1009,7 +1009,7 @@ class Reader:
                 elem.append(self._read_break(xml_child_elem))
             elif xml_child_elem.tag == 'E':
                 elem.append(self._read_emphasis_text(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'XREF'}:
                 # These elements are not yet supported
@@ -1018,7 +1018,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_paragraph(self,
                                        xml_elem: ElementTree.Element) -> ar_element.MultiLanguageParagraph:
@@ -1123,7 +1123,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_element.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_describable(self,
                           child_elements: ChildElementMap, data: dict) -> None:
-- 
2.43.0


From 2093e8ab0b84e60fa2f2bde2d7fc9d7c255668de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 03/75] fix: accept Superscript in long names and paragraphs,
 Break in overview paragraphs

---
 src/autosar/xml/element.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b91e301..b0844ff 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -595,7 +595,7 @@ class MixedContentForLongName(LanguageSpecific):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -618,7 +618,7 @@ class MixedContentForOverviewParagraph(LanguageSpecific):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, Break, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -803,7 +803,7 @@ class MixedContentForParagraph(LanguageSpecific):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Subscript, TechnicalTerm)):
+        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Superscript, TechnicalTerm)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
-- 
2.43.0


From 97799be96cd1f341bf991e257864e504c66c51d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 04/75] fix: Identifiable accepts introduction, annotations and
 admin data given by the reader

---
 src/autosar/xml/element.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b0844ff..2de87c0 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -234,13 +234,14 @@ class Identifiable(MultiLanguageReferrable):
                  category: str | None = None,
                  uuid: str | None = None,
                  admin_data: Union["AdminData", None] = None,
+                 introduction: Union["DocumentationBlock", None] = None,
+                 annotations: Union["Annotation", list["Annotation"], None] = None,
                  **kwargs) -> None:
         super().__init__(name, **kwargs)
         self.desc: MultiLanguageOverviewParagraph | None = None
         self.category = None
-        self.admin_data = None
-        self.introduction = None
-        self.annotations = None
+        self.introduction: Union["DocumentationBlock", None] = None
+        self.annotations: Union[list["Annotation"], None] = None
         self.uuid = None
         self.admin_data: Union["AdminData", None] = None
         if desc is not None:
@@ -254,6 +255,10 @@ class Identifiable(MultiLanguageReferrable):
                 raise TypeError(f"Invalid type for argument 'desc': {str(type(desc))}")
         self._assign_optional('category', category, str)
         self._assign_optional('uuid', uuid, str)
+        self._assign_optional_strict('admin_data', admin_data, AdminData)
+        self._assign_optional_strict('introduction', introduction, DocumentationBlock)
+        if annotations is not None:
+            self.annotations = [annotations] if isinstance(annotations, Annotation) else list(annotations)
 
     def update_ref_parts(self, ref_parts: list[str]):
         """
-- 
2.43.0


From f43e895f3b2b15b1a6d89d44f37a87fddabd7f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 05/75] fix: write all annotations inside a single ANNOTATIONS
 element

---
 src/autosar/xml/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index c2a8df5..ae67d5e 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -590,10 +590,10 @@ class Writer(_XMLWriter):
         """
         tag = 'ANNOTATIONS'
         if elements:
+            self._add_child(tag)
             for elem in elements:
-                self._add_child(tag)
                 self._write_annotation(elem)
-                self._leave_child()
+            self._leave_child()
         else:
             self._add_content(tag)
 
-- 
2.43.0


From 431168c3c336e1c207225fc69f8ac9c94c6c7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 06/75] fix: read ADMIN-DATA without SDGS and SDG without SD

---
 src/autosar/xml/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index a07be73..8448ab2 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -545,7 +545,7 @@ class Reader:
         element_map.skip('USED-LANGUAGES')  # Implement later
         element_map.skip('DOC-REVISIONS')  # Implement later
         xml_sdgs = element_map.get('SDGS')
-        if len(xml_sdgs):
+        if xml_sdgs is not None:
             data['data'] = self._read_admin_data_sdgs(xml_sdgs)
         return ar_element.AdminData(**data)
 
@@ -565,7 +565,7 @@ class Reader:
         """
         group_key = xml_element.attrib['GID']
         xml_sd = xml_element.find('./SD')
-        special_data = self._read_admin_data_sd(xml_sd)
+        special_data = {} if xml_sd is None else self._read_admin_data_sd(xml_sd)
         return {group_key: special_data}
 
     def _read_admin_data_sd(self, xml_element: ElementTree.Element) -> dict[str, str]:
-- 
2.43.0


From 16f56ff5951c0526b4c2a22a499fd2f05f044235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 07/75] fix: write the UUID attribute of every identifiable
 element

---
 src/autosar/xml/writer.py | 220 ++++++++++++++++++++++++++++----------
 1 file changed, 165 insertions(+), 55 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index ae67d5e..bbfa1ed 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -1602,7 +1602,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE-ELEMENT'
         """
         assert isinstance(elem, ar_element.ImplementationDataTypeElement)
-        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1639,7 +1641,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ImplementationDataType)
-        self._add_child("IMPLEMENTATION-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IMPLEMENTATION-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1690,7 +1694,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-PRIMITIVE-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationPrimitiveDataType)
-        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1715,7 +1721,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationArrayElement)
-        self._add_child("ELEMENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ELEMENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1745,7 +1753,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationRecordElement)
-        self._add_child("APPLICATION-RECORD-ELEMENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-RECORD-ELEMENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1769,7 +1779,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ARRAY-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationArrayDataType)
-        self._add_child("APPLICATION-ARRAY-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-ARRAY-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1794,7 +1806,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationRecordDataType)
-        self._add_child("APPLICATION-RECORD-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-RECORD-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2798,7 +2812,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-DECLARATION'
         """
         assert isinstance(elem, ar_element.ModeDeclaration)
-        self._add_child("MODE-DECLARATION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-DECLARATION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2828,7 +2844,9 @@ class Writer(_XMLWriter):
         tag variants: 'MODE-TRANSITION'
         """
         assert isinstance(elem, ar_element.ModeTransition)
-        self._add_child("MODE-TRANSITION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-TRANSITION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2926,7 +2944,9 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.NvDataInterface)
-        self._add_child("NV-DATA-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("NV-DATA-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2951,7 +2971,9 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.ParameterInterface)
-        self._add_child("PARAMETER-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PARAMETER-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2976,7 +2998,9 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.SenderReceiverInterface)
-        self._add_child("SENDER-RECEIVER-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SENDER-RECEIVER-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3030,7 +3054,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ERROR'
         """
         assert isinstance(elem, ar_element.ApplicationError)
-        self._add_child("APPLICATION-ERROR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-ERROR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3050,7 +3076,9 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-OPERATION'
         """
         assert isinstance(elem, ar_element.ClientServerOperation)
-        self._add_child("CLIENT-SERVER-OPERATION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("CLIENT-SERVER-OPERATION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3082,7 +3110,9 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-INTERFACE'
         """
         assert isinstance(elem, ar_element.ClientServerInterface)
-        self._add_child("CLIENT-SERVER-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("CLIENT-SERVER-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3111,7 +3141,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-INTERFACE'
         """
         assert isinstance(elem, ar_element.ModeSwitchInterface)
-        self._add_child("MODE-SWITCH-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-SWITCH-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3183,7 +3215,9 @@ class Writer(_XMLWriter):
         Tag variants: 'E-2-E-PROFILE-COMPATIBILITY-PROPS'
         """
         assert isinstance(elem, ar_element.E2EProfileCompatibilityProps)
-        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3605,7 +3639,9 @@ class Writer(_XMLWriter):
         Tag variants: 'P-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.ProvidePortPrototype)
-        self._add_child("P-PORT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("P-PORT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3630,7 +3666,9 @@ class Writer(_XMLWriter):
         Tag variants: 'R-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.RequirePortPrototype)
-        self._add_child("R-PORT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("R-PORT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3657,7 +3695,9 @@ class Writer(_XMLWriter):
         Tag variants: 'PR-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.PRPortPrototype)
-        self._add_child("PR-PORT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PR-PORT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3721,7 +3761,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationSoftwareComponentType)
-        self._add_child("APPLICATION-SW-COMPONENT-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-SW-COMPONENT-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3735,7 +3777,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SW-COMPONENT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.SwComponentPrototype)
-        self._add_child("SW-COMPONENT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SW-COMPONENT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3778,7 +3822,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASSEMBLY-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.AssemblySwConnector)
-        self._add_child("ASSEMBLY-SW-CONNECTOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASSEMBLY-SW-CONNECTOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3794,7 +3840,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DELEGATION-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.DelegationSwConnector)
-        self._add_child("DELEGATION-SW-CONNECTOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DELEGATION-SW-CONNECTOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3816,7 +3864,9 @@ class Writer(_XMLWriter):
         Tag variants: 'PASS-THROUGH-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.PassThroughSwConnector)
-        self._add_child("PASS-THROUGH-SW-CONNECTOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PASS-THROUGH-SW-CONNECTOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3832,7 +3882,9 @@ class Writer(_XMLWriter):
         Tag variants: 'COMPOSITION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.CompositionSwComponentType)
-        self._add_child("COMPOSITION-SW-COMPONENT-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("COMPOSITION-SW-COMPONENT-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3866,7 +3918,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-IMPLEMENTATION'
         """
         assert isinstance(elem, ar_element.SwcImplementation)
-        self._add_child("SWC-IMPLEMENTATION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-IMPLEMENTATION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4123,7 +4177,9 @@ class Writer(_XMLWriter):
         Tag variants: 'REPLACE-WITH' | 'VARIABLE-ACCESS'
         """
         assert isinstance(elem, ar_element.VariableAccess)
-        self._add_child(tag)
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child(tag, attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4200,7 +4256,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4214,7 +4272,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.SynchronousServerCallPoint)
-        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4231,7 +4291,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RESULT-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallResultPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4252,7 +4314,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggeringPointIdent)
-        self._add_child("IDENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IDENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4282,7 +4346,9 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGERING-POINT'
         """
         assert isinstance(elem, ar_element.InternalTriggeringPoint)
-        self._add_child("INTERNAL-TRIGGERING-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("INTERNAL-TRIGGERING-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4297,7 +4363,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ModeAccessPointIdent)
-        self._add_child("IDENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IDENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4335,7 +4403,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-POINT'
         """
         assert isinstance(elem, ar_element.ModeSwitchPoint)
-        self._add_child("MODE-SWITCH-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-SWITCH-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4390,7 +4460,9 @@ class Writer(_XMLWriter):
         Tag variants: 'PARAMETER-ACCESS'
         """
         assert isinstance(elem, ar_element.ParameterAccess)
-        self._add_child("PARAMETER-ACCESS")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PARAMETER-ACCESS", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4413,7 +4485,9 @@ class Writer(_XMLWriter):
         Tag variants: 'WAIT-POINT'
         """
         assert isinstance(elem, ar_element.WaitPoint)
-        self._add_child("WAIT-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("WAIT-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4487,7 +4561,9 @@ class Writer(_XMLWriter):
         This is in early stage, most will be implemented later
         """
         assert isinstance(elem, ar_element.RunnableEntity)
-        self._add_child("RUNNABLE-ENTITY")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("RUNNABLE-ENTITY", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4605,7 +4681,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallReturnsEvent)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4620,7 +4698,9 @@ class Writer(_XMLWriter):
         Tag variants: 'BACKGROUND-EVENT'
         """
         assert isinstance(elem, ar_element.BackgroundEvent)
-        self._add_child("BACKGROUND-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("BACKGROUND-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4633,7 +4713,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVE-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceiveErrorEvent)
-        self._add_child("DATA-RECEIVE-ERROR-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-RECEIVE-ERROR-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4648,7 +4730,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVED-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceivedEvent)
-        self._add_child("DATA-RECEIVED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-RECEIVED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4663,7 +4747,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-SEND-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataSendCompletedEvent)
-        self._add_child("DATA-SEND-COMPLETED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-SEND-COMPLETED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4678,7 +4764,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-WRITE-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataWriteCompletedEvent)
-        self._add_child("DATA-WRITE-COMPLETED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-WRITE-COMPLETED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4693,7 +4781,9 @@ class Writer(_XMLWriter):
         Tag variants: 'EXTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggerOccurredEvent)
-        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4708,7 +4798,9 @@ class Writer(_XMLWriter):
         Tag variants: 'INIT-EVENT'
         """
         assert isinstance(elem, ar_element.InitEvent)
-        self._add_child("INIT-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("INIT-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4721,7 +4813,9 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.InternalTriggerOccurredEvent)
-        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4736,7 +4830,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCHED-ACK-EVENT'
         """
         assert isinstance(elem, ar_element.ModeSwitchedAckEvent)
-        self._add_child("MODE-SWITCHED-ACK-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-SWITCHED-ACK-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4751,7 +4847,9 @@ class Writer(_XMLWriter):
         Tag variants: 'OPERATION-INVOKED-EVENT'
         """
         assert isinstance(elem, ar_element.OperationInvokedEvent)
-        self._add_child("OPERATION-INVOKED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("OPERATION-INVOKED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4766,7 +4864,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-MANAGER-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeManagerErrorEvent)
-        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4781,7 +4881,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-SWITCH-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeSwitchEvent)
-        self._add_child("SWC-MODE-SWITCH-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-MODE-SWITCH-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4810,7 +4912,9 @@ class Writer(_XMLWriter):
         Tag variants: 'TIMING-EVENT'
         """
         assert isinstance(elem, ar_element.TimingEvent)
-        self._add_child("TIMING-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("TIMING-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4827,7 +4931,9 @@ class Writer(_XMLWriter):
         Tag variants: 'TRANSFORMER-HARD-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.TransformerHardErrorEvent)
-        self._add_child("TRANSFORMER-HARD-ERROR-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("TRANSFORMER-HARD-ERROR-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4925,7 +5031,9 @@ class Writer(_XMLWriter):
         Writes complex type AR:EXCLUSIVE-AREA
         Tag variants: 'EXCLUSIVE-AREA'
         """
-        self._add_child("EXCLUSIVE-AREA")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("EXCLUSIVE-AREA", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4936,7 +5044,9 @@ class Writer(_XMLWriter):
         Writes complex type AR:SWC-INTERNAL-BEHAVIOR
         Tag variants: 'SWC-INTERNAL-BEHAVIOR'
         """
-        self._add_child("SWC-INTERNAL-BEHAVIOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-INTERNAL-BEHAVIOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
-- 
2.43.0


From 9d4779e6524a5147787b92e5efa198094058a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 08/75] fix: add XML mapping of ServiceKind
 (IS-SERVICE/SERVICE-KIND of port interfaces)

---
 src/autosar/xml/enumeration.py | 54 ++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/autosar/xml/enumeration.py b/src/autosar/xml/enumeration.py
index 554e614..87758f4 100644
--- a/src/autosar/xml/enumeration.py
+++ b/src/autosar/xml/enumeration.py
@@ -1089,6 +1089,33 @@ xml_to_enum_map: dict[str, dict] = {
         "USE-ARRAY-BASE-TYPE": ServerArgImplPolicy.USE_ARRAY_BASED_TYPE,
         "USE-VOID": ServerArgImplPolicy.USE_VOID
     },
+    "ServiceKind": {
+        "ANY-STANDARDIZED": ServiceKind.ANY_STANDARDIZED,
+        "BASIC-SOFTWARE-MODE-MANAGER": ServiceKind.BASIC_SOFTWARE_MODE_MANAGER,
+        "COM-MANAGER": ServiceKind.COM_MANAGER,
+        "CRYPTO-KEY-MANAGEMENT": ServiceKind.CRYPTO_KEY_MANAGEMENT,
+        "CRYPTO-SERVICE-MANAGER": ServiceKind.CRYPTO_SERVICE_MANAGER,
+        "DEFAULT-ERROR-TRACER": ServiceKind.DEFAULT_ERROR_TRACER,
+        "DEVELOPMENT-ERROR-TRACER": ServiceKind.DEVELOPMENT_ERROR_TRACER,
+        "DIAGNOSTIC-COMMUNICATION-MANAGER": ServiceKind.DIAGNOSTIC_COMMUNICATION_MANAGER,
+        "DIAGNOSTIC-EVENT-MANAGER": ServiceKind.DIAGNOSTIC_EVENT_MANAGER,
+        "DIAGNOSTIC-LOG-AND-TRACE": ServiceKind.DIAGNOSTIC_LOG_AND_TRACE,
+        "ECU-MANAGER": ServiceKind.ECU_MANAGER,
+        "ERROR-TRACER": ServiceKind.ERROR_TRACER,
+        "FUNCTION-INHIBITION-MANAGER": ServiceKind.FUNCTION_INHIBITION_MANAGER,
+        "HARDWARE-TEST-MANAGER": ServiceKind.HARDWARE_TEST_MANAGER,
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT": ServiceKind.INTRUSION_DETECTION_SECURITY_MANAGEMENT,
+        "J-1939-DCM": ServiceKind.J1939_DCM,
+        "J-1939-REQUEST-MANAGER": ServiceKind.J1939_REQUEST_MANAGER,
+        "NON-VOLATILE-RAM-MANAGER": ServiceKind.NON_VOLATILE_RAM_MANAGER,
+        "OPERATING-SYSTEM": ServiceKind.OPERATING_SYSTEM,
+        "SECURE-ON-BOARD-COMMUNICATION": ServiceKind.SECURE_ON_BOARD_COMMUNICATION,
+        "SYNC-BASE-TIME-MANAGER": ServiceKind.SYNC_BASE_TIME_MANAGER,
+        "V-2-X-FACILITIES": ServiceKind.V2X_FACILITIES,
+        "V-2-X-MANAGEMENT": ServiceKind.V2X_MANAGEMENT,
+        "VENDOR-SPECIFIC": ServiceKind.VENDOR_SPECIFIC,
+        "WATCH-DOG-MANAGER": ServiceKind.WATCH_DOG_MANAGER
+    },
     "SupportBufferLocking": {
         "DOES-NOT-SUPPORT-BUFFER-LOCKING": SupportBufferLocking.DOES_NOT_SUPPORT_BUFFER_LOCKING,
         "SUPPORTS-BUFFER-LOCKING": SupportBufferLocking.SUPPORTS_BUFFER_LOCKING
@@ -1497,6 +1524,33 @@ enum_to_xml_map: dict[str, list] = {
         "USE-ARRAY-BASE-TYPE",  # 1
         "USE-VOID",             # 2
     ],
+    "ServiceKind": [
+        "ANY-STANDARDIZED",                         # 0
+        "BASIC-SOFTWARE-MODE-MANAGER",              # 1
+        "COM-MANAGER",                              # 2
+        "CRYPTO-SERVICE-MANAGER",                   # 3
+        "DEFAULT-ERROR-TRACER",                     # 4
+        "DEVELOPMENT-ERROR-TRACER",                 # 5
+        "DIAGNOSTIC-COMMUNICATION-MANAGER",         # 6
+        "DIAGNOSTIC-EVENT-MANAGER",                 # 7
+        "DIAGNOSTIC-LOG-AND-TRACE",                 # 8
+        "ECU-MANAGER",                              # 9
+        "FUNCTION-INHIBITION-MANAGER",              # 10
+        "J-1939-REQUEST-MANAGER",                   # 11
+        "NON-VOLATILE-RAM-MANAGER",                 # 12
+        "OPERATING-SYSTEM",                         # 13
+        "SECURE-ON-BOARD-COMMUNICATION",            # 14
+        "SYNC-BASE-TIME-MANAGER",                   # 15
+        "VENDOR-SPECIFIC",                          # 16
+        "WATCH-DOG-MANAGER",                        # 17
+        "ERROR-TRACER",                             # 18
+        "HARDWARE-TEST-MANAGER",                    # 19
+        "V-2-X-FACILITIES",                         # 20
+        "V-2-X-MANAGEMENT",                         # 21
+        "J-1939-DCM",                               # 22
+        "CRYPTO-KEY-MANAGEMENT",                    # 23
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT"   # 24
+    ],
     "SupportBufferLocking": [
         "DOES-NOT-SUPPORT-BUFFER-LOCKING",  # 0
         "SUPPORTS-BUFFER-LOCKING"           # 1
-- 
2.43.0


From 4908235068801d4f52e3160fdc78d8ac49110c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 09/75] fix: format floats with 29 or more integer digits
 instead of raising InvalidOperation

---
 src/autosar/xml/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index bbfa1ed..b869825 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -149,7 +149,11 @@ class _XMLWriter:
             return 'NaN'
         else:
             tmp = decimal.Decimal(str(value))
-            result = tmp.quantize(decimal.Decimal(1)) if tmp == tmp.to_integral() else tmp.normalize()
+            # Decimal.quantize is limited by the precision of the context, larger numbers keep their exponent
+            if tmp == tmp.to_integral() and tmp.adjusted() < decimal.getcontext().prec:
+                result = tmp.quantize(decimal.Decimal(1))
+            else:
+                result = tmp.normalize()
             return str(result)
 
     def _format_number(self, number: int | float | ar_element.NumericalValue) -> str:
-- 
2.43.0


From 794c6e1883b849cbec7c8d6886e8ad210e7137ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 10/75] fix: read the VALIDITY attribute of scale constraints

---
 src/autosar/xml/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 8448ab2..fa78962 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1447,6 +1447,9 @@ class Reader:
             limit, interval_type = self._read_limit(xml_child)
             data["upper_limit"] = limit
             data["upper_limit_type"] = interval_type
+        validity = xml_element.attrib.get("VALIDITY")
+        if validity is not None:
+            data["validity"] = ar_enum.xml_to_enum("ScaleConstraintValidity", validity)
         return ar_element.ScaleConstraint(**data)
 
     # --- Unit elements
-- 
2.43.0


From ffbd383b991ada3771cea29236c5dedd261639fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 11/75] fix: PRPortPrototype accepts a list of provided
 com-specs

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 2de87c0..8e0db79 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4818,7 +4818,7 @@ class PRPortPrototype(PortPrototype):
         if provided_com_spec is not None:
             if isinstance(provided_com_spec, ProvidePortComSpec):
                 self.append_com_spec(provided_com_spec)
-            elif isinstance(required_com_spec, (list, tuple)):
+            elif isinstance(provided_com_spec, (list, tuple)):
                 for com_spec_elem in provided_com_spec:
                     self.append_com_spec(com_spec_elem)
             else:
-- 
2.43.0


From fe75ad5160e8699ceb9336b2c47790b9fb28438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 12/75] fix: Unit uses the given physical dimension reference

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 8e0db79..04771c5 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1546,7 +1546,7 @@ class Unit(ARElement):
                 raise TypeError(f"display_name: Invalid type '{str(type(display_name))}'")
         if physical_dimension_ref is not None:
             if isinstance(physical_dimension_ref, str):
-                self.physical_dimension_ref = PhysicalDimensionRef(display_name)
+                self.physical_dimension_ref = PhysicalDimensionRef(physical_dimension_ref)
             elif isinstance(physical_dimension_ref, PhysicalDimensionRef):
                 self.physical_dimension_ref = physical_dimension_ref
             else:
-- 
2.43.0


From e3e99be5a80dea0f6dbb295a436830fa06327540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 13/75] fix: read SERVICE-KIND of port interfaces

---
 src/autosar/xml/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index fa78962..25438f5 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3340,7 +3340,9 @@ class Reader:
         if inner_elem is not None:
             data['is_service'] = self._read_boolean(inner_elem.text)
         xml_elements.skip('NAMESPACES')  # Not supported
-        xml_elements.skip('SERVICE-KIND')  # Implement later
+        inner_elem = xml_elements.get('SERVICE-KIND')
+        if inner_elem is not None:
+            data['service_kind'] = ar_enum.xml_to_enum('ServiceKind', inner_elem.text)
 
     def _read_nv_data_interface(self, xml_element: ElementTree.Element) -> ar_element.NvDataInterface:
         """
-- 
2.43.0


From b15fe237bbfc1bbc9d49613f6bcc41b346bca394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 14/75] fix: comments and processing instructions no longer
 truncate the text of an element

---
 src/autosar/xml/reader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 25438f5..9b4e63e 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -352,7 +352,7 @@ class Reader:
         Reads ARXML document file
         """
         self.document = None
-        self.xml_root = ElementTree.ElementTree().parse(file_path)
+        self.xml_root = ElementTree.ElementTree().parse(file_path, self._create_parser())
         self.file_path = file_path
         self.file_base_name = os.path.basename(file_path)
         self.observed_unsupported_elements = set()
@@ -368,7 +368,7 @@ class Reader:
         """
         self.observed_unsupported_elements = set()
         self.document = None
-        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"))
+        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"), self._create_parser())
         self.file_path = ""
         self.file_base_name = ""
         self.stop_on_error = stop_on_error
@@ -383,7 +383,7 @@ class Reader:
         This is primarily used for unit-testing.
         """
         self.observed_unsupported_elements = set()
-        elem = ElementTree.fromstring(xml)
+        elem = ElementTree.fromstring(xml, self._create_parser())
         if type_name is not None:
             read_method = self._switcher_type_name.get(type_name, None)
         else:
@@ -395,6 +395,13 @@ class Reader:
 
     # --- Utility methods
 
+    def _create_parser(self) -> ElementTree.XMLParser:
+        """
+        Creates XML parser. Comments and processing instructions are not part of the
+        content and must not split the text of the element that contains them.
+        """
+        return ElementTree.XMLParser(remove_comments=True, remove_pis=True)
+
     def _report_unprocessed_elements(self, xml_elements: ChildElementMap):
         """
         Reports about unprocessed child elements
-- 
2.43.0


From 5afcb455683df9af965260f335472e1f32bb4032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 15/75] fix: report elements with invalid content (such as
 unknown literals) as parse errors instead of aborting the read

---
 src/autosar/xml/reader.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 9b4e63e..abb70f9 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -663,19 +663,19 @@ class Reader:
                     element = read_method(xml_child_elem)
                     assert isinstance(element, ar_element.ARElement)
                     package.append(element)
-                except ar_exception.ParseError as exc:
-                    msg = "Parse error encountered while reading element starting on this line"
-                    message = self._element_error_message(xml_child_elem, msg)
-                    if self.stop_on_error:
-                        raise ar_exception.ParseError(message) from exc
-                    print(message + ":")
-                    print("    " + str(exc))
                 except ar_exception.DuplicateElement as exc:
                     message = self._element_error_message(xml_child_elem,
                                                           str(exc))
                     if self.stop_on_error:
                         raise ar_exception.DuplicateElement(message) from exc
                     print(message)
+                except (ar_exception.ParseError, AttributeError, KeyError, TypeError, ValueError) as exc:
+                    msg = "Parse error encountered while reading element starting on this line"
+                    message = self._element_error_message(xml_child_elem, msg)
+                    if self.stop_on_error:
+                        raise ar_exception.ParseError(message) from exc
+                    print(message + ":")
+                    print("    " + str(exc))
             else:
                 self._report_unprocessed_element(xml_child_elem)
 
-- 
2.43.0


From 9cc01a743ebb37928dfbf072caa2d81693644300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 16/75] fix: schema version of one document no longer leaks
 into the next document read by the same Reader

---
 src/autosar/xml/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index abb70f9..f8b6cfc 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -125,6 +125,7 @@ class Reader:
         self.observed_unsupported_elements = None
         self.schema_file: str = ''
         self.schema_version = schema_version
+        self.default_schema_version = schema_version  # Used when a document doesn't specify its schema version
         self.document: ar_document.Document = None
         self.stop_on_error = False
         self.switcher_collectable = {  # Collectable elements
@@ -594,6 +595,8 @@ class Reader:
 #                self._read_file_info_comment(xml_node, self.document)
 
     def _read_schema_version(self) -> None:
+        self.schema_file = ''
+        self.schema_version = self.default_schema_version
         for key in self.xml_root.attrib.keys():
             if key.endswith('schemaLocation'):
                 match = re.search(r'AUTOSAR_(\d+).xsd',
-- 
2.43.0


From 46e9d872ff5524a0a3ddaa91337a2a90b067ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 17/75] fix: splitting an empty reference no longer raises
 IndexError

---
 src/autosar/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/base.py b/src/autosar/base.py
index 5471a6c..10853e6 100644
--- a/src/autosar/base.py
+++ b/src/autosar/base.py
@@ -9,7 +9,7 @@ def split_ref(ref: str) -> list[str] | None:
     """Splits a string separated with slashes and automatially removes leading slash"""
     sep = "/"
     if isinstance(ref, str):
-        return ref[1:].split(sep) if ref[0] == sep else ref.split(sep)
+        return ref[1:].split(sep) if ref.startswith(sep) else ref.split(sep)
     return None
 
 
-- 
2.43.0


From acc778aac59913f280e5fde7658a1759829017b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 18/75] fix: create_package raises on duplicate name instead of
 returning the exception

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 04771c5..84b1eca 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2892,7 +2892,7 @@ class Package(CollectableElement):
         Creates new sub-package
         """
         if name in self._collection_map:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self._collection_map[name] = package
         self.packages.append(package)
@@ -3068,7 +3068,7 @@ class PackageCollection:
         Creates new package in collection
         """
         if name in self._package_dict:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self.append(package)
         return package
-- 
2.43.0


From 5d90be6d0aed2a27a07fc0296e9421b217b274d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 19/75] fix: mode transition appended to a mode declaration
 group gets the group as parent, not itself

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 84b1eca..40690b1 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3270,7 +3270,7 @@ class ModeDeclarationGroup(ARElement):
         Appends mode transition to internal list of transitions
         """
         if isinstance(mode_transition, ModeTransition):
-            mode_transition.parent = mode_transition
+            mode_transition.parent = self
             self.mode_transitions.append(mode_transition)
         else:
             msg = f"mode_transition: Invalid type '{str(type(mode_transition))}'"
-- 
2.43.0


From cb2ff93480a97576ece86d4005f84aa20e7ae759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 20/75] fix: ClientServerInterface accepts a single possible
 error

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 40690b1..f20c9eb 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3780,7 +3780,7 @@ class ClientServerInterface(PortInterface):
 
         if possible_errors is not None:
             if isinstance(possible_errors, ApplicationError):
-                self.append_operation(possible_errors)
+                self.append_possible_errors(possible_errors)
             elif isinstance(possible_errors, list):
                 for possible_error in possible_errors:
                     self.append_possible_errors(possible_error)
-- 
2.43.0


From d7b9b245de6c70725520404eaca08260768d076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 21/75] fix: nested elements get their owner as parent, so that
 ref() works on them

---
 src/autosar/xml/element.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index f20c9eb..d78d80e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1930,6 +1930,7 @@ class ImplementationDataTypeElement(Identifiable):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
@@ -1986,6 +1987,7 @@ class ImplementationDataType(AutosarDataType):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
@@ -2229,6 +2231,8 @@ class ApplicationArrayDataType(ApplicationCompositeDataType):
         self.element: ApplicationArrayElement | None = None                 # .ELEMENT
         self._assign_optional('dynamic_array_size_profile', dynamic_array_size_profile, str)
         self._assign_optional_strict('element', element, ApplicationArrayElement)
+        if self.element is not None:
+            self.element.parent = self
 
     def ref(self) -> ApplicationDataTypeRef | None:
         """
@@ -2289,6 +2293,7 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
         Appends element to elements list
         """
         if isinstance(element, ApplicationRecordElement):
+            element.parent = self
             self.elements.append(element)
         else:
             raise TypeError("'element' must be of type ApplicationRecordElement")
@@ -3674,6 +3679,7 @@ class ClientServerOperation(Identifiable):
         Appends argument to internal list of arguments
         """
         if isinstance(argument, ArgumentDataPrototype):
+            argument.parent = self
             self.arguments.append(argument)
         else:
             msg = f"argument: Invalid type '{str(type(argument))}'"
@@ -3866,6 +3872,8 @@ class ModeSwitchInterface(PortInterface):
         self.mode_group: ModeDeclarationGroupPrototype | None = None
 
         self._assign_optional_strict("mode_group", mode_group, ModeDeclarationGroupPrototype)
+        if self.mode_group is not None:
+            self.mode_group.parent = self
 
     def ref(self) -> PortInterfaceRef | None:
         """
@@ -5154,6 +5162,8 @@ class AtomicSoftwareComponentType(SwComponentType):
         self._internal_behavior: SwcInternalBehavior | None = None
         self.symbol_props = None  # AR:SYMBOL-PROPS
         self._assign_optional_strict("_internal_behavior", internal_behavior, SwcInternalBehavior)
+        if self._internal_behavior is not None:
+            self._internal_behavior.parent = self
         self._assign_optional_strict("symbol_props", symbol_props, SymbolProps)
 
     @property
@@ -5540,7 +5550,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = DelegationSwConnector(connector_name, inner_port_iref, outer_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
     def _create_pass_through_connector(self,
@@ -5550,7 +5560,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = PassThroughSwConnector(connector_name, provide_port.ref(), require_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
 
-- 
2.43.0


From 3eb8f1e11316133d4b34e31ce22bcb506804ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 22/75] fix: looking up a path below an element without
 sub-elements gives None instead of AttributeError

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index d78d80e..61f1980 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2914,7 +2914,7 @@ class Package(CollectableElement):
         item = self._collection_map.get(parts[0], None)
         if item is not None:
             if len(parts[2]) > 0:
-                return item.find(parts[2])
+                return item.find(parts[2]) if hasattr(item, "find") else None
         return item
 
     def filter(self, *names: str) -> Iterator[ARElement]:
-- 
2.43.0


From d35bf30e7bd2f5f8376c2f991f29adb1d7fd6419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 23/75] fix: ImplementationDataType.find resolves nested
 sub-elements instead of failing an assertion

---
 src/autosar/xml/element.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 61f1980..a4cd942 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2004,8 +2004,12 @@ class ImplementationDataType(AutosarDataType):
         """
         Finds item by reference
         """
-        assert "/" not in ref
-        return self._find_by_name(self.sub_elements, ref)
+        elem = self
+        for name in ref.split("/"):
+            elem = self._find_by_name(elem.sub_elements, name)
+            if elem is None:
+                break
+        return elem
 
 
 class DataPrototype(Identifiable):
-- 
2.43.0


From 9f67df86f34794f2774aecaa9d40e01f26be32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 24/75] fix: a path that continues below a port, component
 prototype or connector no longer resolves to that item

---
 src/autosar/xml/element.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index a4cd942..2eb75e1 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4935,9 +4935,8 @@ class SwComponentType(ARElement, Searchable):
         """
         Searches port names for a match in ref
         """
-        parts = ref.partition('/')
         for elem in self.ports:
-            if elem.name == parts[0]:
+            if elem.name == ref:
                 return elem
         return None
 
@@ -5411,12 +5410,11 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         """
         Searches components and connectors for a match in ref
         """
-        parts = ref.partition('/')
         for elem in self.components:
-            if elem.name == parts[0]:
+            if elem.name == ref:
                 return elem
         for elem in self.connectors:
-            if elem.name == parts[0]:
+            if elem.name == ref:
                 return elem
         return super().find(ref)
 
-- 
2.43.0


From 1611e9b8e785e4f4c3788e7a742a6a34f7c4f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 25/75] fix: create_connector reports an unknown component as
 ValueError instead of AttributeError

---
 src/autosar/xml/element.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 2eb75e1..7954882 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5508,6 +5508,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
                             msg = f"Component '{component.name}' does not seem to have a port with name '{port_name}'"
                             raise ValueError(msg)
                         return port, elem
+                raise ValueError(f"Component '{self.name}' does not seem to have a component with name '{parts[0]}'")
             else:
                 raise ValueError(f"Invalid format: '{port_ref}'")
         else:  # Format is 'port_name'
-- 
2.43.0


From bb37a92b7966c69c4c3f4dd9dc7fddbaa6e3dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 26/75] fix: pass-through connector finds out which port is
 provided and which is required, like assembly connectors do

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 7954882..574be12 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5459,6 +5459,8 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         port2, component2 = self._analyze_port_ref(workspace, port_ref2)
 
         if component1 is None and component2 is None:
+            if isinstance(port1, RequirePortPrototype) and isinstance(port2, ProvidePortPrototype):
+                port1, port2 = port2, port1
             return self._create_pass_through_connector(port1, port2)
         elif component1 is None:
             return self._create_delegation_connector(component2, port2, port1)
-- 
2.43.0


From e9de369111170ff45aeb3725e90fe3114fe1f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 27/75] fix: unknown element names given to
 RequirePortComSpec.make_from_port_interface raise the intended ValueError

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 574be12..e35a3b3 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4421,7 +4421,7 @@ class RequirePortComSpec(ARObject):
                                                                              **com_spec_args)
                         com_spec_list.append(com_spec)
                 if len(unprocessed) > 0:
-                    element_names = ', '.join(list[unprocessed])
+                    element_names = ', '.join(list(unprocessed))
                     msg = f"{port_interface.name}: Data element(s) not found in port interface: '{element_names}'"
                     raise ValueError(msg)
                 return com_spec_list
@@ -4444,7 +4444,7 @@ class RequirePortComSpec(ARObject):
                         com_spec = ClientComSpec(operation_ref=operation.ref(), **com_spec_args)
                         com_spec_list.append(com_spec)
                 if len(unprocessed) > 0:
-                    operations = ', '.join(list[unprocessed])
+                    operations = ', '.join(list(unprocessed))
                     raise ValueError(f"{port_interface.name}: Operation(s) not found in port interface: '{operations}'")
                 return com_spec_list
         elif isinstance(port_interface, ModeSwitchInterface):
-- 
2.43.0


From 1c33ac2bbad9e56fb317b7dd1ab4c8834903a18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 28/75] fix: create_p_port and create_r_port keep a com-spec
 given as a single object

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index e35a3b3..3124125 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4970,7 +4970,7 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(ProvidePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
+            elif not isinstance(com_spec, ProvidePortComSpec):
                 com_spec = None  # Clear when not implemented
         port = ProvidePortPrototype(name, port_interface.ref(), com_spec, **kwargs)
         self.append_port(port)
@@ -5019,7 +5019,7 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(RequirePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
+            elif not isinstance(com_spec, RequirePortComSpec):
                 com_spec = None  # Clear when not implemented
         port = RequirePortPrototype(name, port_interface.ref(), com_spec, allow_unconnected, **kwargs)
         self.append_port(port)
-- 
2.43.0


From 0c660f673b197b564add2d5bca97c03df7adcbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 29/75] fix: create_p_port and create_pr_port work with their
 default port_interface=None

---
 src/autosar/xml/element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 3124125..53f1e32 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4972,7 +4972,8 @@ class SwComponentType(ARElement, Searchable):
                 com_spec = processed
             elif not isinstance(com_spec, ProvidePortComSpec):
                 com_spec = None  # Clear when not implemented
-        port = ProvidePortPrototype(name, port_interface.ref(), com_spec, **kwargs)
+        port_interface_ref = None if port_interface is None else port_interface.ref()
+        port = ProvidePortPrototype(name, port_interface_ref, com_spec, **kwargs)
         self.append_port(port)
         return port
 
@@ -5057,7 +5058,8 @@ class SwComponentType(ARElement, Searchable):
             if isinstance(required_com_spec, dict):
                 required_com_spec = RequirePortComSpec.make_from_port_interface(port_interface, **required_com_spec)
                 assert required_com_spec is not None
-        port = PRPortPrototype(name, port_interface.ref(), provided_com_spec, required_com_spec, **kwargs)
+        port_interface_ref = None if port_interface is None else port_interface.ref()
+        port = PRPortPrototype(name, port_interface_ref, provided_com_spec, required_com_spec, **kwargs)
         self.append_port(port)
         return port
 
-- 
2.43.0


From 0d773c752e815e462c57973d4a8e4894addb9db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 30/75] fix: make_unique_name_in_list no longer renames an
 element to a name that is already taken

---
 src/autosar/xml/element.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 53f1e32..ba943d2 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -328,7 +328,11 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
         elif element.name == base_name:
             unpatched_elem = element
     if unpatched_elem is not None:
-        unpatched_elem.name = '_'.join([unpatched_elem.name, '0'])
+        first_name = '_'.join([base_name, '0'])
+        if any(element.name == first_name for element in elements):
+            highest_index += 1
+            first_name = '_'.join([base_name, str(highest_index)])
+        unpatched_elem.name = first_name
     if has_index or unpatched_elem is not None:
         return '_'.join([base_name, str(highest_index + 1)])
     else:
-- 
2.43.0


From 5f3936c73134cc666138d34f4cac3e7d098b97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 31/75] fix: create_port_access finds the only parameter of a
 parameter interface

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index ba943d2..9ab69cf 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6887,7 +6887,7 @@ class RunnableEntity(ExecutableEntity):
         target_data = None
         if len(parameter_name) == 0:
             if len(port_interface.parameters) == 1:
-                target_data = port_interface.parameter[0]
+                target_data = port_interface.parameters[0]
         else:
             for element in port_interface.parameters:
                 if element.name == parameter_name:
-- 
2.43.0


From a273fc5b95fae0673839dc30bd4c4b7eb4da4370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 32/75] fix: create_port_access leaves the argument
 dictionaries of the caller unchanged

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 9ab69cf..3eaa72f 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6693,7 +6693,7 @@ class RunnableEntity(ExecutableEntity):
             elements = [elements]
         for elem in elements:
             if isinstance(elem, tuple):
-                text, access_point_args = elem
+                text, access_point_args = elem[0], dict(elem[1])
             else:
                 text, access_point_args = elem, None
             options = PortAccessOptions()
-- 
2.43.0


From e945001b9a06dbb4c9f4000d596c3fb141059cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 33/75] fix: a rejected mode reference no longer renames an
 existing event

---
 src/autosar/xml/element.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 3eaa72f..84beceb 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8405,14 +8405,13 @@ class SwcInternalBehavior(InternalBehavior):
                       " swc_mode_switch_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
         expected_formats = "Expected formats: '<PortName>', '<PortName>/<ModeDeclarationName>', tuple[str, str]"
         if isinstance(mode_ref, str):
             if len(mode_ref) == 0:
                 raise ValueError("mode_ref: Invalid argument. " + expected_formats)
             context_port, context_mode_declaration_group, target_mode_declaration = (
                 self._get_swc_mode_switch_event_args(workspace, swc, mode_ref))
-            event = SwcModeSwitchEvent.make(unique_event_name,
+            event = SwcModeSwitchEvent.make(self._make_unique_event_name(event_name),
                                             runnable.ref(),
                                             activation,
                                             context_port.ref(),
@@ -8434,7 +8433,7 @@ class SwcInternalBehavior(InternalBehavior):
                                                                      target_mode_declaration.ref()))
                 else:
                     raise TypeError(f"mode_ref: Invalid type '{str(type(ref))}'. " + expected_formats)
-            event = SwcModeSwitchEvent(unique_event_name,
+            event = SwcModeSwitchEvent(self._make_unique_event_name(event_name),
                                        runnable.ref(),
                                        activation,
                                        (instance_refs[0], instance_refs[1]),
-- 
2.43.0


From e45142e4fc5f205986c059f9accc1f1385a2ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 34/75] fix: array types with impl policy, size handling or
 size semantics no longer raise ValueError in ImplementationModel

---
 src/autosar/model/implementation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 4852458..b6f5792 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -155,11 +155,11 @@ class ImplementationModel:
         else:
             raise NotImplementedError(last_element.category)
         if last_element.array_impl_policy is not None:
-            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy(last_element.array_impl_policy)
+            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy[last_element.array_impl_policy.name]
         if last_element.array_size_handling is not None:
-            sub_element.size_handling = rte_enumeration.ArraySizeHandling(last_element.array_size_handling)
+            sub_element.size_handling = rte_enumeration.ArraySizeHandling[last_element.array_size_handling.name]
         if last_element.array_size_semantics is not None:
-            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics(last_element.array_size_semantics)
+            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics[last_element.array_size_semantics.name]
         data_type.sub_elements.append(sub_element)
         for ar_sub_elem in reversed(element.sub_elements[:-1]):
             xml_ref = elem_ref + "/" + ar_sub_elem.name
-- 
2.43.0


From 5c3bc58817fd638eebce915062dd0a394fd2db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 35/75] fix: arrays with several dimensions can be modelled and
 are generated with all of their dimensions

---
 src/autosar/generator/type_generator.py | 5 ++++-
 src/autosar/model/implementation.py     | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 8ecb9d0..c8adc15 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -129,7 +129,10 @@ class TypeGenerator:
             target_type = C.type(last_element.data_type.impl_type.name)
         else:
             raise NotImplementedError(str(type(last_element.data_type)))
-        return C.statement(C.declaration(C.typedef(data_type.name, target_type, array=last_element.array_size)))
+        outer_dimensions = "".join(f"[{element.array_size}]" for element in data_type.sub_elements[:-1])
+        return C.statement(C.declaration(C.typedef(data_type.name + outer_dimensions,
+                                                   target_type,
+                                                   array=last_element.array_size)))
 
     def _gen_record_type_def(self, data_type: rte_element.RecordType) -> cfile.core.Statement:
         members = []
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index b6f5792..a4599c3 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -163,7 +163,7 @@ class ImplementationModel:
         data_type.sub_elements.append(sub_element)
         for ar_sub_elem in reversed(element.sub_elements[:-1]):
             xml_ref = elem_ref + "/" + ar_sub_elem.name
-            assert isinstance(xml_ref.array_size, int)
+            assert isinstance(ar_sub_elem.array_size, int)
             rte_sub_element = rte_element.ArrayTypeElement(xml_ref, ar_sub_elem.name, ar_sub_elem.array_size)
             data_type.sub_elements.insert(0, rte_sub_element)
         self.data_types[str(elem_ref)] = data_type
-- 
2.43.0


From 9fa5d6214c6bc0caf1ec203d892fbd5e1e28d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 36/75] fix: the type emitter of a type reference is kept in
 the implementation model

---
 src/autosar/model/element.py        | 5 +++--
 src/autosar/model/implementation.py | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/element.py b/src/autosar/model/element.py
index 8e28a46..af8b603 100644
--- a/src/autosar/model/element.py
+++ b/src/autosar/model/element.py
@@ -123,8 +123,9 @@ class RefType(ImplementationType):
                  name: str,
                  impl_type: ImplementationType,
                  symbol_name: str | None = None,
-                 const: bool = False) -> None:
-        super().__init__(xml_ref, name, symbol_name, const)
+                 const: bool = False,
+                 type_emitter: str | None = None) -> None:
+        super().__init__(xml_ref, name, symbol_name, const, type_emitter)
         self.impl_type = impl_type
 
 
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index a4599c3..d873f68 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -137,7 +137,11 @@ class ImplementationModel:
         symbol = None
         if element.symbol_props is not None:
             symbol = element.symbol_props.symbol
-        ref_type = rte_element.RefType(str(elem_ref), element.name, impl_type, symbol)
+        ref_type = rte_element.RefType(str(elem_ref),
+                                       element.name,
+                                       impl_type,
+                                       symbol,
+                                       type_emitter=element.type_emitter)
         self.data_types[str(elem_ref)] = ref_type
         return ref_type
 
-- 
2.43.0


From 948bffd1ce1d6d3cb185483b4a4a0aa804142c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 37/75] fix: a type that was first created as a dependency can
 still be made a source type

---
 src/autosar/model/implementation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index d873f68..b61d32e 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -51,9 +51,9 @@ class ImplementationModel:
         """
         elem_ref = element.ref()
 
+        if is_source:
+            self.source_type_refs.add(str(elem_ref))
         if str(elem_ref) not in self.data_types:
-            if is_source:
-                self.source_type_refs.add(str(elem_ref))
             if isinstance(element, ar_element.SwBaseType):
                 return self._create_base_type(element)
             elif isinstance(element, ar_element.ImplementationDataType):
-- 
2.43.0


From 44968f48d23b878f157d09bb34257473bfd95f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 38/75] fix: extern "C" of the generated type header is for C++
 compilers only

---
 src/autosar/generator/type_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index c8adc15..6039506 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -48,7 +48,7 @@ class TypeGenerator:
         code.append(C.ifndef(include_guard))
         code.append(C.define(include_guard))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line(C.extern("C")))
         code.append(C.line("{"))
         code.append(C.endif())
@@ -60,7 +60,7 @@ class TypeGenerator:
         code.append(C.blank())
         code.extend(self._gen_type_defs(self.gen_data_type_creation_order()))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line("}"))
         code.append([C.endif(), C.line_comment(" __cplusplus")])
         code.append([C.endif(), C.line_comment(" " + include_guard)])
-- 
2.43.0


From 1703938b47d841abee9eb76a9d3d633aeec2a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 39/75] fix: document mapping accepts a single suffix filter
 given as string

---
 src/autosar/xml/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a343455..a47e201 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -47,7 +47,7 @@ class PackageToDocumentMapping:
         self.element_types: type | tuple[type] = element_types
         self.suffix_filters: list[str] = []
         if isinstance(suffix_filters, str):
-            self.element_types.append(suffix_filters)
+            self.suffix_filters.append(suffix_filters)
         else:
             for suffix_filter in suffix_filters:
                 assert isinstance(suffix_filter, str)
-- 
2.43.0


From 28540576ec0a128f166eddd5436e13f01973222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 40/75] fix: documents can be created without packages, as the
 default value suggests

---
 src/autosar/xml/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a47e201..bc9c65a 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -27,7 +27,7 @@ class DocumentConfig:
         self.package_refs: list[str] = []
         if isinstance(package_refs, str):
             self.package_refs.append(package_refs)
-        else:
+        elif package_refs is not None:
             for package_ref in package_refs:
                 assert isinstance(package_ref, str)
                 self.package_refs.append(package_ref)
-- 
2.43.0


From 383173d051c6149c7a2018236aee08cc5e6f3640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 41/75] fix: write_documents leaves the packages and elements
 of the workspace where they are and can be called again

---
 src/autosar/xml/workspace.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index bc9c65a..ea8576c 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -227,16 +227,18 @@ class Workspace(ar_element.PackageCollection):
                                     writer: Writer,
                                     schema_version: int,
                                     document_config: DocumentConfig) -> None:
-        document = document_config.document
+        document = ar_document.Document(schema_version=schema_version)
+        document_config.document = document
         file_path = document_config.file_path
         package_refs = document_config.package_refs
-        document.schema_version = schema_version
         for package_ref in package_refs:
             package = self.find(package_ref)
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-            document.append(package)
+                parent = package.parent
+                document.append(package)
+                package.parent = parent  # The package still belongs to the workspace
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
@@ -269,6 +271,7 @@ class Workspace(ar_element.PackageCollection):
                 new_package = document.make_packages(str(package.ref()))
                 for element in sorted(element_list, key=lambda x: x.name):
                     new_package.append(element)
+                    element.parent = package  # The element still belongs to the package in the workspace
                 if self.document_root is not None:
                     file_path = os.path.join(self.document_root, document_name)
                 else:
-- 
2.43.0


From e9eceadf57ec6f20f462e1bb477597cc66c8f9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 42/75] fix: a sub-package is written to a document below its
 parent packages, so that its reference stays valid

---
 src/autosar/xml/workspace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index ea8576c..24c4c17 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -237,7 +237,9 @@ class Workspace(ar_element.PackageCollection):
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
                 parent = package.parent
-                document.append(package)
+                parent_ref = str(package.ref()).rpartition("/")[0]
+                collection = document.make_packages(parent_ref) if parent_ref else document
+                collection.append(package)
                 package.parent = parent  # The package still belongs to the workspace
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
-- 
2.43.0


From 57d18d5b31ef805d5fce5da6bad0699c56c088b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 43/75] fix: read hexadecimal and binary numbers wherever
 numbers are accepted

---
 src/autosar/xml/reader.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index f8b6cfc..77d91df 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -467,9 +467,13 @@ class Reader:
             value = int(text)
         except ValueError:
             try:
-                value = float(text)
-            except ValueError as exc:
-                raise ar_exception.ParseError(f"Not a number: {text}") from exc
+                # Hexadecimal and binary literals
+                value = int(text, 0)
+            except ValueError:
+                try:
+                    value = float(text)
+                except ValueError as exc:
+                    raise ar_exception.ParseError(f"Not a number: {text}") from exc
         return value
 
     def _read_integer(self, text: str) -> int:
@@ -1234,7 +1238,7 @@ class Reader:
             data["desc"] = self._read_multi_language_overview_paragraph(xml_child)
         xml_child = child_elements.get("MASK")
         if xml_child is not None:
-            data["mask"] = int(xml_child.text)
+            data["mask"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("LOWER-LIMIT")
         if xml_child is not None:
             limit, interval_type = self._read_limit(xml_child)
-- 
2.43.0


From e97acf31057f7f69991b455ee382d428a501aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 44/75] fix: hexadecimal and binary format of negative numbers,
 scientific format without loss of digits

---
 src/autosar/xml/writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index b869825..c673eb3 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -180,11 +180,11 @@ class _XMLWriter:
         if number.value_format in (ar_enum.ValueFormat.DEFAULT, ar_enum.ValueFormat.DECIMAL):
             return self._format_number(number.value)
         elif number.value_format == ar_enum.ValueFormat.HEXADECIMAL:
-            return f"0x{number.value:x}"
+            return f"{number.value:#x}"
         elif number.value_format == ar_enum.ValueFormat.BINARY:
-            return f"0b{number.value:b}"
+            return f"{number.value:#b}"
         elif number.value_format == ar_enum.ValueFormat.SCIENTIFIC:
-            return f"{number.value:e}"
+            return f"{decimal.Decimal(str(number.value)):e}"
         else:
             raise NotImplementedError
 
-- 
2.43.0


From b20faac3aea4d841218dc3d2c1ea8cd56295a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 45/75] fix: read hexadecimal and binary integers wherever
 integers are accepted

---
 src/autosar/xml/reader.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 77d91df..d86cc73 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -481,9 +481,13 @@ class Reader:
         Reads AR:INTEGER
         """
         try:
-            value = int(text, 0)
-        except ValueError as exc:
-            raise ar_exception.ParseError(f"Failed to parse integer: {text}") from exc
+            value = int(text)
+        except ValueError:
+            try:
+                # Hexadecimal and binary literals
+                value = int(text, 0)
+            except ValueError as exc:
+                raise ar_exception.ParseError(f"Failed to parse integer: {text}") from exc
         return value
 
     # --- Abstract base classes
@@ -1362,7 +1366,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("CONSTR-LEVEL")
         if xml_child is not None:
-            data["level"] = int(xml_child.text)
+            data["level"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("PHYS-CONSTRS")
         if xml_child is not None:
             data["physical"] = self._read_physical_constraint(xml_child)
@@ -1678,10 +1682,10 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         bit_position = child_elements.get('BIT-POSITION')
         if bit_position is not None:
-            data['position'] = int(bit_position.text)
+            data['position'] = self._read_integer(bit_position.text)
         number_of_bits = child_elements.get('NUMBER-OF-BITS')
         if number_of_bits is not None:
-            data['num_bits'] = int(number_of_bits.text)
+            data['num_bits'] = self._read_integer(number_of_bits.text)
         self._report_unprocessed_elements(child_elements)
         return ar_element.SwBitRepresentation(**data)
 
@@ -1894,7 +1898,7 @@ class Reader:
             data["array_impl_policy"] = ar_enum.xml_to_enum("ArrayImplPolicy", xml_child.text)
         xml_child = child_elements.get("ARRAY-SIZE")
         if xml_child is not None:
-            data["array_size"] = int(xml_child.text)
+            data["array_size"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("ARRAY-SIZE-HANDLING")
         if xml_child is not None:
             data["array_size_handling"] = ar_enum.xml_to_enum("ArraySizeHandling", xml_child.text)
@@ -2045,7 +2049,7 @@ class Reader:
             data["index_data_type_ref"] = self._read_index_data_type_ref(xml_child)
         xml_child = child_elements.get("MAX-NUMBER-OF-ELEMENTS")
         if xml_child is not None:
-            data["max_number_of_elements"] = int(xml_child.text)
+            data["max_number_of_elements"] = self._read_integer(xml_child.text)
 
     def _read_application_record_element(self, xml_element: ElementTree.Element) -> ar_element.ApplicationRecordElement:
         """
-- 
2.43.0


From 187bb69f966f4b3b4b64b196b49f261a268776b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 46/75] fix: unknown children of value groups are reported like
 everywhere else

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index d86cc73..a757ef3 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3127,7 +3127,7 @@ class Reader:
             elif xml_child.tag in ("VTF", "VG"):
                 continue  # Not supported, skip
             else:
-                print(f"Unprocessed child element in VALUE-GROUP: <{xml_child.tag}>", file=sys.stderr)
+                self._report_unprocessed_element(xml_child)
 
     def _read_value_group(self, xml_element: ElementTree.Element) -> ar_element.ValueGroup:
         """
-- 
2.43.0


From 6be7704431b9732444267cfbeded0f407e6c50e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 47/75] fix: unknown literals inside initial values are
 reported instead of silently dropping the value

---
 src/autosar/xml/enumeration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/enumeration.py b/src/autosar/xml/enumeration.py
index 87758f4..1780138 100644
--- a/src/autosar/xml/enumeration.py
+++ b/src/autosar/xml/enumeration.py
@@ -1150,6 +1150,8 @@ def xml_to_enum(enum_type_name: str, xml_text: str, schema_version: int = ar_bas
     Converts XML string to Python-defined enumeration
     """
     enum_mapping: dict = xml_to_enum_map[enum_type_name]
+    if xml_text not in enum_mapping:
+        raise ar_exception.ParseError(f"'{xml_text}' is not a valid value for {enum_type_name}")
     entry = enum_mapping[xml_text]
     if isinstance(entry, Enum):
         return entry
-- 
2.43.0


From 104e95855d4606c1518d7d210693d727ed6009b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 48/75] fix: schema version of a document no longer leaks into
 elements read or written on their own

---
 src/autosar/xml/reader.py | 1 +
 src/autosar/xml/writer.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index a757ef3..1ffb918 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -384,6 +384,7 @@ class Reader:
         This is primarily used for unit-testing.
         """
         self.observed_unsupported_elements = set()
+        self.schema_version = self.default_schema_version
         elem = ElementTree.fromstring(xml, self._create_parser())
         if type_name is not None:
             read_method = self._switcher_type_name.get(type_name, None)
diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index c673eb3..f441836 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -204,6 +204,7 @@ class Writer(_XMLWriter):
                  schema_version: int = ar_base.DEFAULT_SCHEMA_VERSION) -> None:
         super().__init__(indentation_step=2)
         self.schema_version = schema_version
+        self.default_schema_version = schema_version  # Used for elements that are written without document
 
         # Elements found in AR:PACKAGE
         self.switcher_collectable = {
@@ -436,6 +437,7 @@ class Writer(_XMLWriter):
         """
         Writes single ARXML element as string
         """
+        self.schema_version = self.default_schema_version
         self._str_open()
         class_name = elem.__class__.__name__
         write_method = self.switcher_all.get(class_name, None)
@@ -453,6 +455,7 @@ class Writer(_XMLWriter):
         """
         Writes single ARXML element to file
         """
+        self.schema_version = self.default_schema_version
         self._open(file_path)
         class_name = elem.__class__.__name__
         write_method = self.switcher_collectable.get(class_name, None)
-- 
2.43.0


From 46e65dc4e232cd1721eff974ad89285f100eeea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 49/75] fix: SenderReceiverInterface raises TypeError for
 invalid data elements

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 84beceb..93ff205 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3407,7 +3407,7 @@ class SenderReceiverInterface(DataInterface):
                 for data_element in data_elements:
                     self.append_data_element(data_element)
             else:
-                msg = f"data_elements: Invalid type '{str(type(data_element))}'"
+                msg = f"data_elements: Invalid type '{str(type(data_elements))}'"
                 raise TypeError(msg + ". Expected 'VariableDataPrototype' or list[VariableDataPrototype]")
         if invalidation_policies is not None:
             if isinstance(invalidation_policies, InvalidationPolicy):
-- 
2.43.0


From 49f5d00fb1eea98e06461c8a61d0bebe68ac838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 50/75] fix: check_value of constraints accepts missing limits

---
 src/autosar/xml/element.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 93ff205..a927d5b 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1320,16 +1320,18 @@ class LimitObject(ARObject):
         """
         Checks if given value is inside the constraint limits
         """
-        if self.lower_limit_type == ar_enum.IntervalType.CLOSED:
-            if value < self.lower_limit:
+        if self.lower_limit is not None:
+            if self.lower_limit_type == ar_enum.IntervalType.CLOSED:
+                if value < self.lower_limit:
+                    return False
+            elif value <= self.lower_limit:
                 return False
-        elif value <= self.lower_limit:
-            return False
-        if self.upper_limit_type == ar_enum.IntervalType.CLOSED:
-            if value > self.upper_limit:
+        if self.upper_limit is not None:
+            if self.upper_limit_type == ar_enum.IntervalType.CLOSED:
+                if value > self.upper_limit:
+                    return False
+            elif value >= self.upper_limit:
                 return False
-        elif value >= self.upper_limit:
-            return False
         return True
 
 
-- 
2.43.0


From 602853ecefe1a2fe2263a47578631d7265dcd451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 51/75] fix: pass-through connectors have the provided port on
 the provided side, also for PR-ports, and need one of each

---
 src/autosar/xml/element.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index a927d5b..eb27ba6 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5467,8 +5467,12 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         port2, component2 = self._analyze_port_ref(workspace, port_ref2)
 
         if component1 is None and component2 is None:
-            if isinstance(port1, RequirePortPrototype) and isinstance(port2, ProvidePortPrototype):
+            if isinstance(port1, RequirePortPrototype) or isinstance(port2, ProvidePortPrototype):
                 port1, port2 = port2, port1
+            if isinstance(port1, RequirePortPrototype):
+                raise ValueError('cannot create pass-through connector between two require-ports')
+            if isinstance(port2, ProvidePortPrototype):
+                raise ValueError('cannot create pass-through connector between two provide-ports')
             return self._create_pass_through_connector(port1, port2)
         elif component1 is None:
             return self._create_delegation_connector(component2, port2, port1)
-- 
2.43.0


From 4efb87ab9f315ec89da860e186d2c8b16db45478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 52/75] fix: unique event names compare whole names

make_unique_name_in_list matched only the beginning of the names in the list: an event
for the runnable 'Run' got the name 'TMT_Run_11' when there was one for 'Run_10ms'.
---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index eb27ba6..ff37609 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -318,9 +318,9 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
     has_index = False
     highest_index = 0
     unpatched_elem: Referrable | None = None
-    expr = re.compile(base_name + r'_(\d+)')
+    expr = re.compile(re.escape(base_name) + r'_(\d+)')
     for element in elements:
-        result = expr.match(element.name)
+        result = expr.fullmatch(element.name)
         if result is not None:
             has_index = True
             index = int(result.group(1))
-- 
2.43.0


From 5b462f92f8555eb2df60e71d8f02c7b38e1583c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:06 +0000
Subject: [PATCH 53/75] fix: Read rational coefficients that have no numerator

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index ff37609..8fd23b2 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1104,7 +1104,7 @@ class CompuRational(ARObject):
     """
 
     def __init__(self,
-                 numerator: tuple[int | float] | list[int | float] | None,
+                 numerator: tuple[int | float] | list[int | float] | None = None,
                  denominator: tuple[int | float] | list[int | float] | None = None) -> None:
         if numerator is not None:
             if not isinstance(numerator, (tuple, list)):
-- 
2.43.0


From 38a55640de5bc55ed1f29a16c1aa3eb260f5fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 54/75] fix: Keep a unit name that is given as text in one part

---
 src/autosar/xml/element.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 8fd23b2..6771688 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -986,11 +986,11 @@ class SingleLanguageUnitNames(MixedContentForUnitNames):
     def __init__(self, parts: str | list | None = None) -> None:
         super().__init__()
         if parts is not None:
-            if isinstance(parts, Iterable):
+            if isinstance(parts, str) or not isinstance(parts, Iterable):
+                self.append(parts)
+            else:
                 for part in parts:
                     self.append(part)
-            else:
-                self.append(parts)
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From 14c32db3c097e31a89502a424379150075d4da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 55/75] fix: Write Boolean values of numerical value
 specifications as numbers

---
 src/autosar/xml/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index f441836..2b95766 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -161,7 +161,7 @@ class _XMLWriter:
         Converts number to string
         """
         if isinstance(number, int):
-            return str(number)
+            return str(int(number))  # bool is written as number
         elif isinstance(number, float):
             return self._format_float(number)
         elif isinstance(number, ar_element.NumericalValue):
-- 
2.43.0


From 5a5ed886b0c7f4baa55b55fa91a6db561f7687c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 56/75] fix: elements with nested <E> elements are reported
 like other invalid elements

---
 src/autosar/xml/reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 1ffb918..e441c4a 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -769,8 +769,7 @@ class Reader:
         data = {}
         self._read_emphasis_text_attr(elem.attrib, data)
         if len(elem.findall('./*')) > 0:
-            raise NotImplementedError(
-                "Nesting inside <E> elements not yet supported")
+            self._raise_parse_error(elem, "Nesting inside <E> elements not yet supported")
         data['elements'] = elem.text
         return ar_element.EmphasisText(**data)
 
-- 
2.43.0


From 0bf0bb74d1af1ef9c75f75a16b9a2be934e41186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 57/75] fix: elements that can't be in a package are reported
 like other invalid elements

---
 src/autosar/xml/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index e441c4a..06fdecf 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -673,7 +673,8 @@ class Reader:
             if read_method is not None:
                 try:
                     element = read_method(xml_child_elem)
-                    assert isinstance(element, ar_element.ARElement)
+                    if not isinstance(element, ar_element.ARElement):
+                        raise ar_exception.ParseError(f"<{xml_child_elem.tag}> is not allowed in a package")
                     package.append(element)
                 except ar_exception.DuplicateElement as exc:
                     message = self._element_error_message(xml_child_elem,
-- 
2.43.0


From fb52c985ad1bb9c3ee2da87949604406cb87c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 58/75] fix: read the schema version of documents that name the
 strict or compact schema

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 06fdecf..5d6634d 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -608,7 +608,7 @@ class Reader:
         self.schema_version = self.default_schema_version
         for key in self.xml_root.attrib.keys():
             if key.endswith('schemaLocation'):
-                match = re.search(r'AUTOSAR_(\d+).xsd',
+                match = re.search(r'AUTOSAR_(\d+)(?:_STRICT)?(?:_COMPACT)?\.xsd',
                                   self.xml_root.attrib[key])
                 if match is not None:
                     self.schema_file = 'AUTOSAR_' + match.group(1) + '.xsd'
-- 
2.43.0


From f6a8b834d8b88d6eb8a8f388c5cb432a7817b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 59/75] fix: empty texts are read as empty texts

---
 src/autosar/xml/reader.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5d6634d..489c4ff 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -733,7 +733,7 @@ class Reader:
         if xml_label is not None:
             data['label'] = self._read_multi_language_long_name(xml_label)
         if xml_origin is not None:
-            data['origin'] = xml_origin.text
+            data['origin'] = xml_origin.text or ''
         if xml_text is not None:
             data['text'] = self._read_documentation_block(xml_text)
 
@@ -771,7 +771,7 @@ class Reader:
         self._read_emphasis_text_attr(elem.attrib, data)
         if len(elem.findall('./*')) > 0:
             self._raise_parse_error(elem, "Nesting inside <E> elements not yet supported")
-        data['elements'] = elem.text
+        data['elements'] = elem.text or ''
         return ar_element.EmphasisText(**data)
 
     def _read_emphasis_text_attr(self, attrib: dict, data: dict) -> None:
@@ -793,7 +793,7 @@ class Reader:
         Limitations: Doesn't support child-elements even though it's allowed in the scehema
         Type: Concrete
         """
-        return ar_element.IndexEntry(elem.text)
+        return ar_element.IndexEntry(elem.text or '')
 
     def _read_technical_term(self,
                              elem: ElementTree.Element) -> ar_element.TechnicalTerm:
@@ -806,7 +806,7 @@ class Reader:
         if len(elem.findall('./*')) > 0:
             self._raise_parse_error(
                 elem, 'Child elements in "AR:TT" not allowed')
-        data['text'] = elem.text
+        data['text'] = elem.text or ''
         return ar_element.TechnicalTerm(**data)
 
     def _read_technical_term_attr(self, attrib: dict, data: dict) -> None:
@@ -823,14 +823,14 @@ class Reader:
         Reads complexType AR:SUPSCRIPT for tag SUP
         Type: Concrete
         """
-        return ar_element.Superscript(elem.text)
+        return ar_element.Superscript(elem.text or '')
 
     def _read_subscript(self, elem: ElementTree.Element) -> ar_element.TechnicalTerm:
         """
         Reads complexType AR:SUPSCRIPT for tag SUB
         Type: Concrete
         """
-        return ar_element.Subscript(elem.text)
+        return ar_element.Subscript(elem.text or '')
 
     def _read_multi_language_long_name(self, xml_elem: ElementTree.Element) -> ar_element.MultilanguageLongName:
         """
@@ -1294,7 +1294,7 @@ class Reader:
         if v_xml is not None:
             value = self._read_number(v_xml.text)
         elif vt_xml is not None:
-            value = vt_xml.text
+            value = vt_xml.text or ''
         else:
             raise ar_exception.ParseError("COMPU-CONST without value isn't supported")
         return ar_element.CompuConst(value)
@@ -1662,7 +1662,7 @@ class Reader:
             data['max_size'] = ar_element.PositiveIntegerValue(xml_child.text).value
         xml_child = child_elements.get('BASE-TYPE-ENCODING')
         if xml_child is not None:
-            data['encoding'] = str(xml_child.text)
+            data['encoding'] = xml_child.text or ''
         xml_child = child_elements.get('MEM-ALIGNMENT')
         if xml_child is not None:
             data['alignment'] = ar_element.PositiveIntegerValue(xml_child.text).value
@@ -1672,7 +1672,7 @@ class Reader:
                 'ByteOrder', xml_child.text)
         xml_child = child_elements.get('NATIVE-DECLARATION')
         if xml_child is not None:
-            data['native_declaration'] = str(xml_child.text)
+            data['native_declaration'] = xml_child.text or ''
 
     def _read_sw_bit_representation(self, xml_element: ElementTree.Element) -> ar_element.SwBitRepresentation:
         """
@@ -1787,7 +1787,7 @@ class Reader:
             data['impl_policy'] = ar_enum.xml_to_enum('SwImplPolicy', xml_child.text)
         xml_child = child_elements.get('ADDITIONAL-NATIVE-TYPE-QUALIFIER')
         if xml_child is not None:
-            data['additional_native_type_qualifier'] = xml_child.text
+            data['additional_native_type_qualifier'] = xml_child.text or ''
         xml_child = child_elements.get('SW-INTENDED-RESOLUTION')
         if xml_child is not None:
             data['intended_resolution'] = self._read_number(xml_child.text)
@@ -2875,7 +2875,7 @@ class Reader:
         """
         xml_child = child_elements.get("VALUE")
         if xml_child is not None:
-            data["value"] = xml_child.text
+            data["value"] = xml_child.text or ""
 
     def _read_numerical_value_specification(self,
                                             xml_element: ElementTree.Element
@@ -3114,7 +3114,7 @@ class Reader:
         data["values"] = values
         for xml_child in xml_child_list:
             if xml_child.tag == "VT":
-                values.append(xml_child.text)
+                values.append(xml_child.text or '')
             elif xml_child.tag == "V":
                 number = ar_element.NumericalValue(xml_child.text)
                 if number.value_format in (ar_enum.ValueFormat.HEXADECIMAL,
@@ -4497,7 +4497,7 @@ class Reader:
         child_elements.skip("PER-INSTANCE-MEMORY-SIZES")  # Not yet supported
         xml_child = child_elements.get("REQUIRED-RTE-VENDOR")
         if xml_child is not None:
-            data["required_rte_vendor"] = xml_child.text
+            data["required_rte_vendor"] = xml_child.text or ""
 
     def _read_p_mode_group_in_atomic_swc_instance_ref(self,
                                                       xml_element: ElementTree.Element
-- 
2.43.0


From 9c6375ab52fd91ef72fead57518d163c05761683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 60/75] fix: special data without GID doesn't prevent reading

---
 src/autosar/xml/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 489c4ff..40e605d 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -580,7 +580,7 @@ class Reader:
         """
         Reads Complex-type AR:SDG
         """
-        group_key = xml_element.attrib['GID']
+        group_key = xml_element.attrib.get('GID')
         xml_sd = xml_element.find('./SD')
         special_data = {} if xml_sd is None else self._read_admin_data_sd(xml_sd)
         return {group_key: special_data}
@@ -589,7 +589,7 @@ class Reader:
         """
         Reads Complex-type AR:SD
         """
-        key = xml_element.attrib['GID']
+        key = xml_element.attrib.get('GID')
         value = xml_element.text
         return {key: value}
 
-- 
2.43.0


From 72a0ad3edf6f4dd6ae6cddf2ef62f03e420e6963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 61/75] fix: elements with an empty short name are reported
 like ones without

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 40e605d..3e99996 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -499,7 +499,7 @@ class Reader:
         Type: Abstract
         """
         short_name = element_map.get('SHORT-NAME')
-        if short_name is not None:
+        if short_name is not None and short_name.text:
             data['name'] = short_name.text
         else:
             raise ar_exception.ParseError(
-- 
2.43.0


From 83f288dae283c7183401ed6388b6489c7d3175e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 62/75] fix: references need a value

---
 src/autosar/xml/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/base.py b/src/autosar/xml/base.py
index 06d67fe..fab479b 100644
--- a/src/autosar/xml/base.py
+++ b/src/autosar/xml/base.py
@@ -172,6 +172,8 @@ class BaseRef(ARObject, abc.ABC):
     def __init__(self,
                  value: str,
                  dest: ar_enum.IdentifiableSubTypes = None) -> None:
+        if value is None:
+            raise ValueError("Value of reference cannot be None")
         self.value = value
         self.dest: ar_enum.IdentifiableSubTypes = None
         if dest is None:
-- 
2.43.0


From b6ddcacd050a7a2035405f66de79c7f771ac0797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 63/75] fix: names of methods aren't names of behavior settings

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 6771688..d5bf1b3 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2998,7 +2998,7 @@ class BehaviorSettings:
         """
         Updates a single value with error check
         """
-        if hasattr(self, name):
+        if name in vars(self):
             if not isinstance(value, str):
                 raise TypeError(f"value: Expected string type. Got {str(type(value))}")
             setattr(self, name, value)
-- 
2.43.0


From 65ce746304d923f4bde04c1cbc41ff76bb14a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 64/75] fix: PORT-GROUPS of components are passed over like
 other unsupported elements

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 3e99996..0bf3f63 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4279,7 +4279,7 @@ class Reader:
                 elif xml_grand_child.tag == "PR-PORT-PROTOTYPE":
                     ports.append(self._read_pr_port_prototype(xml_grand_child))
             data["ports"] = ports
-        child_elements.skip("PORT_GROUPS")
+        child_elements.skip("PORT-GROUPS")
         child_elements.skip("SWC-MAPPING-CONSTRAINT-REFS")
         child_elements.skip("UNIT-GROUP-REFS")
 
-- 
2.43.0


From 13ef6d4704c5268ab431d592846746c5f116ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 65/75] fix: values of wrong types are rejected instead of left
 out

---
 src/autosar/xml/element.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index d5bf1b3..3644a42 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1198,6 +1198,8 @@ class Computation(ARObject):
             self.default_value = default_value
         elif isinstance(default_value, (int, float, str)):
             self.default_value = CompuConst(default_value)
+        elif default_value is not None:
+            raise TypeError(f"default_value: Invalid type '{str(type(default_value))}'")
 
     @classmethod
     def make_value_table(cls: "Computation",
@@ -2297,6 +2299,8 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
                 self.append(elements)
             elif isinstance(elements, list):
                 self.extend(elements)
+            else:
+                raise TypeError(f"elements: Invalid type '{str(type(elements))}'")
 
     def append(self, element: ApplicationRecordElement) -> None:
         """
@@ -2454,6 +2458,8 @@ class SwValues(ARObject):
             elif isinstance(values, list):
                 for value in values:
                     self.append(value)
+            else:
+                raise TypeError(f"values: Invalid type '{str(type(values))}'")
 
     def append(self, value: SwValueElement) -> None:
         """
@@ -2716,6 +2722,8 @@ class ArrayValueSpecification(ValueSpecification):
             elif isinstance(elements, list):
                 for element in elements:
                     self.append(element)
+            else:
+                raise TypeError(f"elements: Invalid type '{str(type(elements))}'")
 
     def append(self, element: ValueSpecificationElement):
         """
@@ -2744,6 +2752,8 @@ class RecordValueSpecification(ValueSpecification):
             elif isinstance(fields, list):
                 for field in fields:
                     self.append(field)
+            else:
+                raise TypeError(f"fields: Invalid type '{str(type(fields))}'")
 
     def append(self, field: ValueSpecificationElement):
         """
@@ -5788,6 +5798,9 @@ class ArVariableInImplementationDataInstanceRef(ARObject):
             elif isinstance(context_data_prototype_refs, list):
                 for context_data_prototype_ref in context_data_prototype_refs:
                     self.append_context_data_protype_ref(context_data_prototype_ref)
+            else:
+                raise TypeError("context_data_prototype_refs: "
+                                f"Invalid type '{str(type(context_data_prototype_refs))}'")
 
     def append_context_data_protype_ref(self, context_data_prototype_ref: AbstractImplementationDataTypeElementRef):
         """
@@ -5834,6 +5847,9 @@ class VariableInAtomicSWCTypeInstanceRef(ARObject):
             elif isinstance(context_data_prototype_refs, list):
                 for context_data_prototype_ref in context_data_prototype_refs:
                     self.append_context_data_protype_ref(context_data_prototype_ref)
+            else:
+                raise TypeError("context_data_prototype_refs: "
+                                f"Invalid type '{str(type(context_data_prototype_refs))}'")
 
     def append_context_data_protype_ref(self, context_data_prototype_ref: ApplicationCompositeElementDataPrototypeRef):
         """
@@ -6061,6 +6077,9 @@ class ExecutableEntity(Identifiable):
             elif isinstance(exclusive_area_nesting_order, list):
                 for elem in exclusive_area_nesting_order:
                     self.append_exclusive_area_nesting_order(elem)
+            else:
+                raise TypeError("exclusive_area_nesting_order: "
+                                f"Invalid type '{str(type(exclusive_area_nesting_order))}'")
         self._assign_optional("minimum_start_interval", minimum_start_interval, float)
         self._assign_optional("reentrancy_level", reentrancy_level, ar_enum.ReentrancyLevel)
         if runs_insides is not None:
@@ -7174,6 +7193,8 @@ class RteEvent(Identifiable):
             elif isinstance(disabled_modes, list):
                 for disabled_mode in disabled_modes:
                     self.append_disabled_mode(disabled_mode)
+            else:
+                raise TypeError(f"disabled_modes: Invalid type '{str(type(disabled_modes))}'")
         self._assign_optional("start_on_event", start_on_event, RunnableEntityRef)
 
     def append_disabled_mode(self, disabled_mode: RModeInAtomicSwcInstanceRef) -> None:
-- 
2.43.0


From eb0478a19871b139897c39a35a6d6595e6ba7929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 66/75] fix: appending something else than a package to a
 document or workspace is an error

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 3644a42..dc0e3eb 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3064,6 +3064,8 @@ class PackageCollection:
             package.parent = self
             self.packages.append(package)
             self._package_dict[package.name] = package
+        else:
+            raise TypeError(f"Invalid type {str(type(package))}")
 
     def find(self, ref: str | BaseRef) -> Any:
         """
-- 
2.43.0


From d2296da10f61d51c2dcdb21b3ef6f084a723165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 67/75] fix: failed calls leave the implementation model as it
 was

---
 src/autosar/model/implementation.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index b61d32e..2aa63bd 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -49,10 +49,22 @@ class ImplementationModel:
         """
         Creates new application element from xml-based element
         """
-        elem_ref = element.ref()
-
+        number = len(self.data_types)
+        try:
+            data_type = self._create_data_type(element)
+        except Exception:
+            for ref in list(self.data_types)[number:]:  # Leave the model as it was
+                del self.data_types[ref]
+            raise
         if is_source:
-            self.source_type_refs.add(str(elem_ref))
+            self.source_type_refs.add(data_type.ref)
+        return data_type
+
+    def _create_data_type(self, element: ar_element.ARElement) -> Any:
+        """
+        Returns the data type of the element, it's created if it isn't part of the model yet
+        """
+        elem_ref = element.ref()
         if str(elem_ref) not in self.data_types:
             if isinstance(element, ar_element.SwBaseType):
                 return self._create_base_type(element)
-- 
2.43.0


From 36a70ff3aa20b0a19e6af87844f5336a8ee74606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 68/75] fix: structures with pointers to themselves can be
 added to the implementation model

---
 src/autosar/model/implementation.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 2aa63bd..8ff97c1 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -136,8 +136,7 @@ class ImplementationModel:
                                              base_type,
                                              symbol,
                                              type_emitter=element.type_emitter)
-        self.data_types[str(elem_ref)] = scalar_type
-        return scalar_type
+        return self.data_types.setdefault(str(elem_ref), scalar_type)
 
     def _create_ref_type_from_element(self, element: ar_element.ImplementationDataType) -> rte_element.ScalarType:
         """
@@ -154,8 +153,7 @@ class ImplementationModel:
                                        impl_type,
                                        symbol,
                                        type_emitter=element.type_emitter)
-        self.data_types[str(elem_ref)] = ref_type
-        return ref_type
+        return self.data_types.setdefault(str(elem_ref), ref_type)
 
     def _create_array_type_from_element(self, element: ar_element.ImplementationDataType) -> rte_element.ArrayType:
         elem_ref = str(element.ref())
@@ -182,8 +180,7 @@ class ImplementationModel:
             assert isinstance(ar_sub_elem.array_size, int)
             rte_sub_element = rte_element.ArrayTypeElement(xml_ref, ar_sub_elem.name, ar_sub_elem.array_size)
             data_type.sub_elements.insert(0, rte_sub_element)
-        self.data_types[str(elem_ref)] = data_type
-        return data_type
+        return self.data_types.setdefault(str(elem_ref), data_type)
 
     def _create_array_type_element_from_scalar_type(self,
                                                     parent_ref: str,
@@ -224,6 +221,7 @@ class ImplementationModel:
                                            element.name,
                                            symbol_name=symbol,
                                            type_emitter=element.type_emitter)
+        self.data_types[str(elem_ref)] = data_type  # The elements can have pointers to it
         for ar_sub_elem in element.sub_elements:
             if ar_sub_elem.category == "VALUE":
                 sub_element = self._create_struct_type_element_from_scalar_type(elem_ref, ar_sub_elem)
@@ -232,7 +230,6 @@ class ImplementationModel:
             else:
                 raise NotImplementedError(ar_sub_elem.category)
             data_type.sub_elements.append(sub_element)
-        self.data_types[str(elem_ref)] = data_type
         return data_type
 
     def _create_struct_type_element_from_scalar_type(self,
@@ -278,8 +275,7 @@ class ImplementationModel:
                                             target_type,
                                             symbol_name=symbol,
                                             type_emitter=element.type_emitter)
-        self.data_types[str(elem_ref)] = data_type
-        return data_type
+        return self.data_types.setdefault(str(elem_ref), data_type)
 
     def _create_tree_node(self, data_type: rte_element.Element) -> Node:
         node = Node(data_type)
-- 
2.43.0


From ba6be662528f085a54f676c41e64230918485338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 69/75] fix: Computation doesn't keep the list of the caller

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index dc0e3eb..da28605 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1192,7 +1192,7 @@ class Computation(ARObject):
                  compu_scales: list[CompuScale] | None = None,
                  default_value: CompuConst | int | float | str | None = None) -> None:
 
-        self.compu_scales = compu_scales
+        self.compu_scales = None if compu_scales is None else list(compu_scales)
         self.default_value: CompuConst | int | float | str | None = None  # .COMPU-DEFAULT-VALUE
         if isinstance(default_value, CompuConst):
             self.default_value = default_value
-- 
2.43.0


From 446e5e09e97c90d001418692325b33560e81d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 70/75] fix: numbers are written independently of the decimal
 context of the application

---
 src/autosar/xml/writer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 2b95766..15184b8 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -18,6 +18,7 @@ import autosar.xml.enumeration as ar_enum
 
 MultiLanguageOverviewParagraph = ar_element.MultiLanguageOverviewParagraph
 TupleList = list[tuple[str, str]]
+DECIMAL_CONTEXT = decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN, capitals=1, traps=[])
 
 
 class _XMLWriter:
@@ -149,12 +150,13 @@ class _XMLWriter:
             return 'NaN'
         else:
             tmp = decimal.Decimal(str(value))
-            # Decimal.quantize is limited by the precision of the context, larger numbers keep their exponent
-            if tmp == tmp.to_integral() and tmp.adjusted() < decimal.getcontext().prec:
-                result = tmp.quantize(decimal.Decimal(1))
-            else:
-                result = tmp.normalize()
-            return str(result)
+            with decimal.localcontext(DECIMAL_CONTEXT) as context:  # Don't depend on the context of the application
+                # Decimal.quantize is limited by the precision of the context, larger numbers keep their exponent
+                if tmp == tmp.to_integral() and tmp.adjusted() < context.prec:
+                    result = tmp.quantize(decimal.Decimal(1))
+                else:
+                    result = tmp.normalize()
+                return str(result)
 
     def _format_number(self, number: int | float | ar_element.NumericalValue) -> str:
         """
-- 
2.43.0


From dde285a745eea10b5c7a0f15bd015218f1e4a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 71/75] fix: octal numbers are read as such

---
 src/autosar/base.py        |  9 +++++++
 src/autosar/xml/element.py |  6 ++---
 src/autosar/xml/reader.py  | 48 +++++++++++++++++++++++---------------
 3 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/autosar/base.py b/src/autosar/base.py
index 10853e6..6c50b41 100644
--- a/src/autosar/base.py
+++ b/src/autosar/base.py
@@ -1,6 +1,7 @@
 """Shared declarations"""
 from typing import Any
 import abc
+import re
 
 DEFAULT_SCHEMA_VERSION = 51
 
@@ -25,6 +26,14 @@ def split_ref_strict(ref: str) -> list[str] | None:
     return ref.split(sep)
 
 
+def parse_integer(text: str) -> int:
+    """
+    Converts a literal of AR:INTEGER, which can be decimal, hexadecimal, binary or octal.
+    Octal literals start with 0, unlike in Python.
+    """
+    return int(text, 8) if re.fullmatch(r"\s*0[0-7]+\s*", text) else int(text, 0)
+
+
 class Searchable(abc.ABC):
     """
     Searchable interface
diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index da28605..1584d58 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -9,7 +9,7 @@ from typing import Any, Union
 from collections import OrderedDict
 
 
-from autosar.base import split_ref, split_ref_strict, Searchable
+from autosar.base import parse_integer, split_ref, split_ref_strict, Searchable
 from autosar.xml.base import ARObject, BaseRef
 import autosar.xml.enumeration as ar_enum
 import autosar.xml.exception as ar_except
@@ -131,7 +131,7 @@ class NumericalValue:
             return value
         elif isinstance(value, str):
             try:
-                return int(value, 0)
+                return parse_integer(value)
             except ValueError:
                 return float(value)
         else:
@@ -162,7 +162,7 @@ class PositiveIntegerValue:
     def _validate_value(self, value: int | str) -> int:
         if isinstance(value, str):
             try:
-                value = int(value, 0)
+                value = parse_integer(value)
             except ValueError as err:
                 raise TypeError("Unable to convert to integer") from err
         if isinstance(value, int):
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 0bf3f63..84a0a01 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -464,6 +464,16 @@ class Reader:
         """
         Attempts to convert text to either int or float
         """
+        try:
+            # Decimal, hexadecimal, binary and octal literals
+            return ar_base.parse_integer(text)
+        except ValueError:
+            return self._read_float(text)
+
+    def _read_float(self, text: str) -> int | float:
+        """
+        Reads AR:FLOAT and AR:TIME-VALUE, they have no octal literals
+        """
         try:
             value = int(text)
         except ValueError:
@@ -482,11 +492,11 @@ class Reader:
         Reads AR:INTEGER
         """
         try:
-            value = int(text)
+            # Decimal, hexadecimal, binary and octal literals
+            value = ar_base.parse_integer(text)
         except ValueError:
             try:
-                # Hexadecimal and binary literals
-                value = int(text, 0)
+                value = int(text)
             except ValueError as exc:
                 raise ar_exception.ParseError(f"Failed to parse integer: {text}") from exc
         return value
@@ -1421,10 +1431,10 @@ class Reader:
             data["scale_constr"] = self._read_scale_constraints(xml_child)
         xml_child = child_elements.get("MAX-GRADIENT")
         if xml_child is not None:
-            data["max_gradient"] = self._read_number(xml_child.text)
+            data["max_gradient"] = self._read_float(xml_child.text)
         xml_child = child_elements.get("MAX-DIFF")
         if xml_child is not None:
-            data["max_diff"] = self._read_number(xml_child.text)
+            data["max_diff"] = self._read_float(xml_child.text)
         xml_child = child_elements.get("MONOTONY")
         if xml_child is not None:
             data["monotony"] = ar_enum.xml_to_enum("Monotony", xml_child.text)
@@ -1752,7 +1762,7 @@ class Reader:
         xml_child = child_elements.get('SW-ALIGNMENT')
         if xml_child is not None:
             try:
-                sw_alignment = int(xml_child.text, 0)
+                sw_alignment = ar_base.parse_integer(xml_child.text)
             except ValueError:
                 sw_alignment = xml_child.text
             data['alignment'] = sw_alignment
@@ -3700,7 +3710,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("TIMEOUT")
         if xml_child is not None:
-            data["timeout"] = self._read_number(xml_child.text)
+            data["timeout"] = self._read_float(xml_child.text)
         self._report_unprocessed_elements(child_elements)
         return ar_element.ModeSwitchedAckRequest(**data)
 
@@ -3737,7 +3747,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("TIMEOUT")
         if xml_child is not None:
-            data["timeout"] = self._read_number(xml_child.text)
+            data["timeout"] = self._read_float(xml_child.text)
         self._report_unprocessed_elements(child_elements)
         return ar_element.TransmissionAcknowledgementRequest(**data)
 
@@ -3752,10 +3762,10 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("DATA-UPDATE-PERIOD")
         if xml_child is not None:
-            data["data_update_period"] = self._read_number(xml_child.text)
+            data["data_update_period"] = self._read_float(xml_child.text)
         xml_child = child_elements.get("MINIMUM-SEND-INTERVAL")
         if xml_child is not None:
-            data["minimum_send_interval"] = self._read_number(xml_child.text)
+            data["minimum_send_interval"] = self._read_float(xml_child.text)
         xml_child = child_elements.get("TRANSMISSION-MODE")
         if xml_child is not None:
             data["transmission_mode"] = ar_enum.xml_to_enum("TransmissionMode", xml_child.text)
@@ -3933,10 +3943,10 @@ class Reader:
         self._read_receiver_com_spec(child_elements, data)
         xml_child = child_elements.get("DATA-UPDATE-PERIOD")
         if xml_child is not None:
-            data["data_update_period"] = self._read_number(xml_child.text)
+            data["data_update_period"] = self._read_float(xml_child.text)
         xml_child = child_elements.get("TIMEOUT")
         if xml_child is not None:
-            data["timeout"] = self._read_number(xml_child.text)
+            data["timeout"] = self._read_float(xml_child.text)
         self._report_unprocessed_elements(child_elements)
         return ar_element.ReceptionComSpecProps(**data)
 
@@ -4018,7 +4028,7 @@ class Reader:
         """
         xml_child = child_elements.get("ALIVE-TIMEOUT")
         if xml_child is not None:
-            data["alive_timeout"] = self._read_number(xml_child.text)
+            data["alive_timeout"] = self._read_float(xml_child.text)
         xml_child = child_elements.get("ENABLE-UPDATE")
         if xml_child is not None:
             data["enable_update"] = self._read_boolean(xml_child.text)
@@ -4136,7 +4146,7 @@ class Reader:
         child_elements.skip("CLIENT-INTENT")
         xml_child = child_elements.get("END-TO-END-CALL-RESPONSE-TIMEOUT")
         if xml_child is not None:
-            data["e2e_call_respone_timeout"] = self._read_number(xml_child.text)
+            data["e2e_call_respone_timeout"] = self._read_float(xml_child.text)
         child_elements.skip("GETTER-REF")
         xml_child = child_elements.get("OPERATION-REF")
         if xml_child is not None:
@@ -4829,7 +4839,7 @@ class Reader:
             data["operation"] = self._read_r_operation_in_atomic_swc_instance_ref(xml_child)
         xml_child = child_elements.get("TIMEOUT")
         if xml_child is not None:
-            data["timeout"] = self._read_number(xml_child.text)
+            data["timeout"] = self._read_float(xml_child.text)
         child_elements.skip("VARIATION-POINT")
 
     def _read_async_server_call_point(self, xml_element: ElementTree.Element) -> ar_element.AsynchronousServerCallPoint:
@@ -5084,7 +5094,7 @@ class Reader:
         """
         xml_child = child_elements.get("TIMEOUT")
         if xml_child is not None:
-            data["timeout"] = self._read_number(xml_child.text)
+            data["timeout"] = self._read_float(xml_child.text)
         xml_child = child_elements.get("TRIGGER-REF")
         if xml_child is not None:
             data["trigger"] = self._read_rte_event_ref(xml_child)
@@ -5125,7 +5135,7 @@ class Reader:
             data["exclusive_area_nesting_order"] = exclusive_area_nesting_order
         xml_child = child_elements.get("MINIMUM-START-INTERVAL")
         if xml_child is not None:
-            data["minimum_start_interval"] = self._read_number(xml_child.text)
+            data["minimum_start_interval"] = self._read_float(xml_child.text)
         xml_child = child_elements.get("REENTRANCY-LEVEL")
         if xml_child is not None:
             data["reentrancy_level"] = ar_enum.xml_to_enum("ReentrancyLevel", xml_child.text)
@@ -5565,10 +5575,10 @@ class Reader:
         self._read_rte_event_group(child_elements, data)
         xml_child = child_elements.get("OFFSET")
         if xml_child is not None:
-            data["offset"] = self._read_number(xml_child.text)
+            data["offset"] = self._read_float(xml_child.text)
         xml_child = child_elements.get("PERIOD")
         if xml_child is not None:
-            data["period"] = self._read_number(xml_child.text)
+            data["period"] = self._read_float(xml_child.text)
         self._report_unprocessed_elements(child_elements)
         return ar_element.TimingEvent(**data)
 
-- 
2.43.0


From 259b74c21ffae35397fd126b4aaa93f8a8f767ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 72/75] fix: a relative base reference of a name space is
 applied twice

---
 src/autosar/xml/workspace.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 24c4c17..954b0c4 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -110,12 +110,11 @@ class Workspace(ar_element.PackageCollection):
         if not isinstance(role, (ar_enum.PackageRole, str)):
             raise TypeError(f"role must be of type PackageRole or str. Got {str(type(role))}")
         namespace = self.get_namespace(namespace_name)
-        base_ref = namespace.base_ref
         try:
-            rel_path = namespace.package_map[role]
+            package_ref = namespace.package_map[role]  # The base reference is part of it
         except KeyError as ex:
             raise ValueError(f"Role '{str(role)}'not in namespace map") from ex
-        return posixpath.normpath(posixpath.join(base_ref, rel_path))
+        return posixpath.normpath(package_ref)
 
     def create_package_map(self, mapping: dict[str, str]) -> None:
         """
-- 
2.43.0


From a45e2cfd1c2d70a12e0c45443bc7880299448f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:37 +0000
Subject: [PATCH 73/75] fix: numbers with underscores, digits of other scripts
 and 0o are accepted

---
 src/autosar/base.py        | 17 +++++++++++++++++
 src/autosar/xml/element.py |  4 ++--
 src/autosar/xml/reader.py  | 21 ++++++++++++---------
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/autosar/base.py b/src/autosar/base.py
index 6c50b41..ab40279 100644
--- a/src/autosar/base.py
+++ b/src/autosar/base.py
@@ -26,14 +26,31 @@ def split_ref_strict(ref: str) -> list[str] | None:
     return ref.split(sep)
 
 
+def check_number(text: str) -> None:
+    """
+    Python accepts numbers which AUTOSAR doesn't have: 1_000, 0o17 and digits of other scripts
+    """
+    if not text.isascii() or "_" in text or re.match(r"\s*[+-]?0[oO]", text):
+        raise ValueError(f"Not a number: {text}")
+
+
 def parse_integer(text: str) -> int:
     """
     Converts a literal of AR:INTEGER, which can be decimal, hexadecimal, binary or octal.
     Octal literals start with 0, unlike in Python.
     """
+    check_number(text)
     return int(text, 8) if re.fullmatch(r"\s*0[0-7]+\s*", text) else int(text, 0)
 
 
+def parse_float(text: str) -> float:
+    """
+    Converts a literal of AR:FLOAT
+    """
+    check_number(text)
+    return float(text)
+
+
 class Searchable(abc.ABC):
     """
     Searchable interface
diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 1584d58..fad23f6 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -9,7 +9,7 @@ from typing import Any, Union
 from collections import OrderedDict
 
 
-from autosar.base import parse_integer, split_ref, split_ref_strict, Searchable
+from autosar.base import parse_float, parse_integer, split_ref, split_ref_strict, Searchable
 from autosar.xml.base import ARObject, BaseRef
 import autosar.xml.enumeration as ar_enum
 import autosar.xml.exception as ar_except
@@ -133,7 +133,7 @@ class NumericalValue:
             try:
                 return parse_integer(value)
             except ValueError:
-                return float(value)
+                return parse_float(value)
         else:
             raise TypeError(f"Unexpected type for value {str(type(value))}")
 
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 84a0a01..c9c7fbb 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -475,16 +475,17 @@ class Reader:
         Reads AR:FLOAT and AR:TIME-VALUE, they have no octal literals
         """
         try:
-            value = int(text)
-        except ValueError:
+            ar_base.check_number(text)
             try:
-                # Hexadecimal and binary literals
-                value = int(text, 0)
+                value = int(text)
             except ValueError:
                 try:
+                    # Hexadecimal and binary literals
+                    value = int(text, 0)
+                except ValueError:
                     value = float(text)
-                except ValueError as exc:
-                    raise ar_exception.ParseError(f"Not a number: {text}") from exc
+        except ValueError as exc:
+            raise ar_exception.ParseError(f"Not a number: {text}") from exc
         return value
 
     def _read_integer(self, text: str) -> int:
@@ -496,6 +497,7 @@ class Reader:
             value = ar_base.parse_integer(text)
         except ValueError:
             try:
+                ar_base.check_number(text)
                 value = int(text)
             except ValueError as exc:
                 raise ar_exception.ParseError(f"Failed to parse integer: {text}") from exc
@@ -1508,10 +1510,10 @@ class Reader:
             data["display_name"] = self._read_single_language_unit_names(xml_child)
         xml_child = child_elements.get("FACTOR-SI-TO-UNIT")
         if xml_child is not None:
-            data["factor"] = float(xml_child.text)
+            data["factor"] = ar_base.parse_float(xml_child.text)
         xml_child = child_elements.get("OFFSET-SI-TO-UNIT")
         if xml_child is not None:
-            data["offset"] = float(xml_child.text)
+            data["offset"] = ar_base.parse_float(xml_child.text)
         xml_child = child_elements.get("PHYSICAL-DIMENSION-REF")
         if xml_child is not None:
             data["physical_dimension_ref"] = self._read_physical_dimension_ref(xml_child)
@@ -1750,7 +1752,7 @@ class Reader:
                 'DisplayPresentation', xml_child.text)
         xml_child = child_elements.get('STEP-SIZE')
         if xml_child is not None:
-            data['step_size'] = float(xml_child.text)
+            data['step_size'] = ar_base.parse_float(xml_child.text)
         # Variant-handling not supported
         child_elements.skip('SW-VALUE-BLOCK-SIZE-MULTS')
         xml_child = child_elements.get('ANNOTATIONS')
@@ -3180,6 +3182,7 @@ class Reader:
         xml_child = child_elements.get("SW-AXIS-INDEX")
         if xml_child is not None:
             try:
+                ar_base.check_number(xml_child.text)
                 value = int(xml_child.text)
             except ValueError:
                 value = xml_child.text
-- 
2.43.0


From 9807b981e468d75b6708b45190fb59b6ebd0bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:15 +0000
Subject: [PATCH 74/75] fix: alignments and display formats are accepted with
 anything after them

---
 src/autosar/xml/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/base.py b/src/autosar/xml/base.py
index fab479b..7601598 100644
--- a/src/autosar/xml/base.py
+++ b/src/autosar/xml/base.py
@@ -78,7 +78,7 @@ class ARObject:
         if isinstance(value, int):
             pass
         elif isinstance(value, str):
-            match = pattern.match(value)
+            match = pattern.fullmatch(value)
             if match is None:
                 raise ValueError(f"Invalid parameter '{value}' for '{attr_name}'")
         else:
-- 
2.43.0


From 1e021a6ff245527b5af1ee5ecad9296e1fb6a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:23 +0000
Subject: [PATCH 75/75] fix: document mappings of configuration files accept
 wrong package_ref and element_types

---
 src/autosar/xml/workspace.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 954b0c4..64db00a 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -303,6 +303,8 @@ class Workspace(ar_element.PackageCollection):
         elem_names: list[str] = []
         if package_ref is None:
             raise KeyError("A document mapping must define 'package_ref'")
+        if not isinstance(package_ref, str):
+            raise ValueError(f"package_ref: Invalid type '{str(type(package_ref))}'")
         value = mapping.get("element_types")
         if value is None:
             raise KeyError("A document mapping must define 'element_types'")
@@ -310,15 +312,16 @@ class Workspace(ar_element.PackageCollection):
             elem_names.append(value)
         elif isinstance(value, list):
             for item in value:
-                assert isinstance(item, str)
+                if not isinstance(item, str):
+                    raise ValueError(f"element_types: Invalid type '{str(type(item))}'")
                 elem_names.append(item)
         else:
             raise ValueError(f"element_types: Invalid type '{str(type(value))}'")
         for elem_name in elem_names:
-            try:
-                element_types.append(getattr(ar_element, elem_name))
-            except AttributeError as exc:
-                raise ValueError(f"element_types: '{elem_name}' is not a valid element name") from exc
+            element_type = getattr(ar_element, elem_name, None)
+            if not (isinstance(element_type, type) and issubclass(element_type, ar_element.Referrable)):
+                raise ValueError(f"element_types: '{elem_name}' is not a valid element name")
+            element_types.append(element_type)
         if len(element_types) == 0:
             raise ValueError("element_types: At least one element type must be given")
         value = mapping.get("suffix_filters")
@@ -327,7 +330,8 @@ class Workspace(ar_element.PackageCollection):
                 suffix_filters.append(value)
             elif isinstance(value, list):
                 for item in value:
-                    assert isinstance(item, str)
+                    if not isinstance(item, str):
+                        raise ValueError(f"suffix_filters: Invalid type '{str(type(item))}'")
                     suffix_filters.append(item)
             else:
                 raise ValueError(f"suffix_filters: Invalid type '{str(type(value))}'")
-- 
2.43.0

