From 66df95dce047394f3d13a9f866ebffd8c91e5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 01/71] fix: honour begin, end and dur times of zero instead of
 treating them as unspecified

---
 ebu_tt_live/bindings/validation/timing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/validation/timing.py b/ebu_tt_live/bindings/validation/timing.py
index a966554..40741e3 100644
--- a/ebu_tt_live/bindings/validation/timing.py
+++ b/ebu_tt_live/bindings/validation/timing.py
@@ -36,8 +36,8 @@ class TimingValidationMixin(object):
             context.pop('timing_attribute_name', None)
 
     def _pre_init_variables(self, dataset, element_content):
-        self._begin_timedelta = self.begin and self.begin.timedelta or None
-        self._end_timedelta = self.end and self.end.timedelta or None
+        self._begin_timedelta = self.begin.timedelta if self.begin is not None else None
+        self._end_timedelta = self.end.timedelta if self.end is not None else None
         # We make sure end time is always none at the beginning because it can cause a LogicError with a stale value
         self._computed_begin_time = None
         self._computed_end_time = None
@@ -321,7 +321,7 @@ class BodyTimingValidationMixin(TimingValidationMixin):
 
     def _pre_init_variables(self, dataset, element_content):
         super(BodyTimingValidationMixin, self)._pre_init_variables(dataset, element_content)
-        self._dur_timedelta = self.dur and self.dur.timedelta or None
+        self._dur_timedelta = self.dur.timedelta if self.dur is not None else None
 
     def _post_cleanup_variables(self):
         del self._dur_timedelta
-- 
2.43.0


From e82d62be7adcfc637ed7b4511aeabb81276b6c13 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 02/71] fix: compare begin and end as times, not as text, when
 detecting badly timed elements

---
 ebu_tt_live/bindings/validation/timing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/validation/timing.py b/ebu_tt_live/bindings/validation/timing.py
index 40741e3..a7929ca 100644
--- a/ebu_tt_live/bindings/validation/timing.py
+++ b/ebu_tt_live/bindings/validation/timing.py
@@ -46,7 +46,7 @@ class TimingValidationMixin(object):
     def _element_badly_timed(self, value, element):
         return (element.begin is not None and \
                 element.end is not None and \
-                element.end <= element.begin)
+                element.end.timedelta <= element.begin.timedelta)
         
     def _post_cleanup_variables(self):
         del self._semantic_dataset
-- 
2.43.0


From a5a0f272ba83e1b79a60e8f28d859b0f5b7dc3cf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 03/71] fix: express a duration under one millisecond as 0s
 instead of failing on 0None

---
 ebu_tt_live/bindings/_ebuttdt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index 06e374d..529eaac 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -288,6 +288,9 @@ class TimecountTimingType(_TimedeltaBindingMixin, ebuttdt_raw.timecountTimingTyp
             if not unit:
                 unit = 'h'
             numerator += hours * multiplier
+        if unit is None:
+            # Less than a millisecond, trimmed
+            return '0s'
         return '{}{}'.format(numerator, unit)
 
 
-- 
2.43.0


From ee79a21c162f61f5cd8c9dfb1a5e254af625d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 04/71] fix: asking whether an open ended document is discarded
 must not fail

---
 ebu_tt_live/documents/ebutt3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index df11650..c42d20c 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -442,7 +442,8 @@ class EBUTT3Document(TimelineUtilMixin, SubtitleDocument, EBUTT3ObjectBase):
 
     @property
     def discarded(self):
-        return self.resolved_begin_time >= self.resolved_end_time
+        # An open ended document is never discarded
+        return self.resolved_end_time is not None and self.resolved_begin_time >= self.resolved_end_time
 
     def content_to_string(self, begin=None, end=None):
         """
-- 
2.43.0


From 9dbece8c729b1abf7b956a109c3f88a7943941ec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 05/71] fix: a document that became available after its end
 must not corrupt the sequence timeline

---
 ebu_tt_live/documents/ebutt3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index c42d20c..566beeb 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -74,7 +74,12 @@ class TimingEventEnd(TimingEvent):
     Element/document resolved end time.
     """
     def __init__(self, element):
-        super(TimingEventEnd, self).__init__(element=element, when=element.computed_end_time)
+        when = element.computed_end_time
+        if when is not None and when < element.computed_begin_time:
+            # It had ended before it could begin (i.e.: it became available late) so it is never active. Its end must
+            # not precede its begin on the timeline.
+            when = element.computed_begin_time
+        super(TimingEventEnd, self).__init__(element=element, when=when)
 
     def __repr__(self):
         return '<{}({}): {}>'.format(
-- 
2.43.0


From 064dbd7f4f076f56abdd6f43289b08382d836dbb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 06/71] fix: trim an open ended document that is delivered out
 of order

---
 ebu_tt_live/documents/ebutt3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 566beeb..f4cc16e 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -780,7 +780,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                     raise SequenceOverridden()
                 if item.element.sequence_number > document.sequence_number:
                     # This means our document may get trimmed into shape
-                    if this_ends.when > item.when:
+                    if this_ends.when is None or this_ends.when > item.when:
                         trims_this = item
                     break
 
-- 
2.43.0


From cfbfe2da818f0ee38b6e7088aa55c87814a10cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 07/71] fix: documents without a duration must not make the
 sequence inconsistent

---
 ebu_tt_live/documents/ebutt3.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index f4cc16e..8799b77 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -743,7 +743,8 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
         # The one that will trim this document. One with a higher seq number
         trims_this = None
 
-        _end_found = False
+        # Documents that ended by the time this one begins
+        _ended = []
         for item in self.timeline.irange(
             maximum=this_begins,
             reverse=True
@@ -758,22 +759,20 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                 raise discarderror
 
             if isinstance(item, TimingEventBegin):
-                if not _end_found or _end_found.element != item.element:
+                if item.element not in _ended:
                     # This will be trimmed
                     begins_before = item
                 # Once a begin event is found we quit
                 break
             elif isinstance(item, TimingEventEnd):
-                if _end_found:
-                    raise ValueError(ERR_DOCUMENT_SEQUENCE_INCONSISTENCY)
-                _end_found = item
+                _ended.append(item.element)
 
         for item in self.timeline.irange(this_begins):
             # This loop goes forward looking at offending events
             if isinstance(item, TimingEventEnd):
-                ends_after = item
-                if begins_before and ends_after.element != begins_before.element and ends_after.when != begins_before.when:
-                    raise ValueError(ERR_DOCUMENT_SEQUENCE_INCONSISTENCY)
+                # Documents without a duration may end at the same time
+                if begins_before and item.element == begins_before.element:
+                    ends_after = item
 
             elif isinstance(item, TimingEventBegin):
                 if document.sequence_number > item.element.sequence_number:
-- 
2.43.0


From ad8f50511e5ed84a069cc10b0271afbbbdd880e3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 08/71] fix: sequence identifiers, ids and text may contain
 non-ASCII characters

---
 ebu_tt_live/adapters/document_data.py   | 2 +-
 ebu_tt_live/bindings/__init__.py        | 8 ++++----
 ebu_tt_live/bindings/validation/base.py | 2 +-
 ebu_tt_live/documents/ebutt3.py         | 6 +++---
 ebu_tt_live/node/base.py                | 2 +-
 ebu_tt_live/node/consumer.py            | 6 +++---
 ebu_tt_live/node/delay.py               | 2 +-
 ebu_tt_live/node/distributing.py        | 2 +-
 ebu_tt_live/strings.py                  | 2 +-
 ebu_tt_live/twisted/websocket.py        | 4 ++--
 10 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ebu_tt_live/adapters/document_data.py b/ebu_tt_live/adapters/document_data.py
index b237ba8..f790723 100644
--- a/ebu_tt_live/adapters/document_data.py
+++ b/ebu_tt_live/adapters/document_data.py
@@ -34,7 +34,7 @@ class XMLtoEBUTT3Adapter(IDocumentDataAdapter):
 
         if sequence_identifier is not None and sequence_identifier != doc.sequence_identifier:
             log.error(
-                'Sequence identifier mismatch found: {} != {}'.format(sequence_identifier, doc.sequence_identifier)
+                u'Sequence identifier mismatch found: {} != {}'.format(sequence_identifier, doc.sequence_identifier)
             )
             raise UnexpectedSequenceIdentifierError()
         kwargs.update(dict(
diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 4b1eb43..fd21847 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -939,7 +939,7 @@ class body_type(LiveStyledElementMixin, BodyTimingValidationMixin, SemanticValid
         output = []
 
         for item in children:
-            log.debug('processing child: {} of {}'.format(item.value, element))
+            log.debug(u'processing child: {} of {}'.format(item.value, element))
             if isinstance(item, NonElementContent):
                 copied_stuff = copy.copy(item.value)
                 output.append(copied_stuff)
@@ -951,7 +951,7 @@ class body_type(LiveStyledElementMixin, BodyTimingValidationMixin, SemanticValid
                     if copied_elem.id is not None and copied_elem.id in ids:
                         next_try = copied_elem.id
                         while next_try in ids:
-                            next_try = '{}.1'.format(next_try)
+                            next_try = u'{}.1'.format(next_try)
                         copied_elem.id = next_try
                     ids.add(copied_elem.id)
                 output.append(copied_elem)
@@ -1013,7 +1013,7 @@ class styling(SemanticValidationMixin, raw.styling):
             for item in other_elem.orderedContent():
                 copied_style = copy.copy(item.value)
                 if item.value.id in style_ids:
-                    copied_style.id = '{}.1'.format(copied_style.id)
+                    copied_style.id = u'{}.1'.format(copied_style.id)
                 self.append(copied_style)
 
         return self
@@ -1094,7 +1094,7 @@ class layout(SemanticValidationMixin, raw.layout):
             for item in other_elem.orderedContent():
                 copied_region = copy.copy(item.value)
                 if copied_region.id in region_ids:
-                    copied_region.id = '{}.1'.format(copied_region.id)
+                    copied_region.id = u'{}.1'.format(copied_region.id)
                     region_ids.add(copied_region.id)
                 self.append(copied_region)
         return self
diff --git a/ebu_tt_live/bindings/validation/base.py b/ebu_tt_live/bindings/validation/base.py
index 5048ee6..c64bab6 100644
--- a/ebu_tt_live/bindings/validation/base.py
+++ b/ebu_tt_live/bindings/validation/base.py
@@ -201,7 +201,7 @@ class IDMixin(object):
     """
 
     _re_ebu_id_deconflict = re.compile('SEQ([0-9]+)\.(.*)')
-    _tp_ebu_id_deconflict = 'SEQ{sequence_number}.{original_id}'
+    _tp_ebu_id_deconflict = u'SEQ{sequence_number}.{original_id}'
 
     def deconflict_id(self, seq_num):
         if self.id is not None:
diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 8799b77..96ca149 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -690,7 +690,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                     # Set the one we currently have in the document except the empty string
                     self._authors_group_identifier = document.authors_group_identifier
 
-            log.debug('Sequence number: {} can be safely inserted into sequence: {}'.format(
+            log.debug(u'Sequence number: {} can be safely inserted into sequence: {}'.format(
                 document.sequence_number,
                 self.sequence_identifier
             ))
@@ -989,7 +989,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                 document_segments.append(doc_segment)
             except Exception as err:
                 log.error(
-                    'Error extracting document segment from {}__{}'.format(
+                    u'Error extracting document segment from {}__{}'.format(
                         doc.sequence_identifier, doc.sequence_number
                     )
                 )
@@ -1005,7 +1005,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
             # comp_doc.set_end(end)
         else:
             splicer = EBUTT3Splicer(
-                sequence_identifier='{}_resegmented'.format(self.sequence_identifier),
+                sequence_identifier=u'{}_resegmented'.format(self.sequence_identifier),
                 sequence_number=current_sequence_number,
                 document_segments=document_segments
             )
diff --git a/ebu_tt_live/node/base.py b/ebu_tt_live/node/base.py
index 80835b2..40fa4b0 100644
--- a/ebu_tt_live/node/base.py
+++ b/ebu_tt_live/node/base.py
@@ -92,7 +92,7 @@ class AbstractConsumerNode(IConsumerNode, __AbstractNode):
 
         if self._first_input_document_sequence != document.sequence_identifier:
             log.error(
-                'Sequences limited to one: expecting: {}, received: {}'.format(self._first_input_document_sequence, document.sequence_identifier)
+                u'Sequences limited to one: expecting: {}, received: {}'.format(self._first_input_document_sequence, document.sequence_identifier)
             )
             raise UnexpectedSequenceIdentifierError('Rejecting new sequence identifier')
 
diff --git a/ebu_tt_live/node/consumer.py b/ebu_tt_live/node/consumer.py
index f57f046..9e182db 100644
--- a/ebu_tt_live/node/consumer.py
+++ b/ebu_tt_live/node/consumer.py
@@ -32,7 +32,7 @@ class SimpleConsumer(AbstractConsumerNode):
 
             if self._sequence is None:
                 # Create sequence from document
-                log.info('Creating document sequence from first document {}'.format(
+                log.info(u'Creating document sequence from first document {}'.format(
                     document
                 ))
                 self.create_sequence_from_document(document)
@@ -49,7 +49,7 @@ class SimpleConsumer(AbstractConsumerNode):
                 self._sequence.add_document(document)
             except SequenceNumberCollisionError:
                 log.info(
-                    'Consumer ignoring duplicate seq number: {}'.format(
+                    u'Consumer ignoring duplicate seq number: {}'.format(
                         document.sequence_number
                     )
                 )
@@ -97,7 +97,7 @@ class ReSequencer(AbstractProducerNode, SimpleConsumer):
         
         if init_document is not None:
             # Create sequence from init document, in order to immediately start document output
-            log.info('Creating document sequence from init document {}'.format(
+            log.info(u'Creating document sequence from init document {}'.format(
                 init_document
             ))
             with open(init_document, 'r') as xml_file:
diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index c873e93..cfd80b8 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -70,7 +70,7 @@ class RetimingDelayNode(AbstractCombinedNode):
                 self.producer_carriage.emit_data(data=document, **kwargs)
             else:
                 log.warning(
-                    'Ignoring duplicate document: {}__{}'.format(
+                    u'Ignoring duplicate document: {}__{}'.format(
                         document.sequence_identifier,
                         document.sequence_number
                     )
diff --git a/ebu_tt_live/node/distributing.py b/ebu_tt_live/node/distributing.py
index 85acfb7..7ea70e8 100644
--- a/ebu_tt_live/node/distributing.py
+++ b/ebu_tt_live/node/distributing.py
@@ -41,7 +41,7 @@ class DistributingNode(AbstractCombinedNode):
                 )
             else:
                 log.warning(
-                    'Ignoring duplicate document: {}__{}'.format(
+                    u'Ignoring duplicate document: {}__{}'.format(
                         document.sequence_identifier,
                         document.sequence_number
                     )
diff --git a/ebu_tt_live/strings.py b/ebu_tt_live/strings.py
index e2fb6c1..b9353ee 100644
--- a/ebu_tt_live/strings.py
+++ b/ebu_tt_live/strings.py
@@ -1,4 +1,4 @@
-
+from __future__ import unicode_literals
 from gettext import gettext
 
 # ERRORS
diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index 6abab4f..5a1e182 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -480,10 +480,10 @@ class LegacyBroadcastServerProtocol(WebSocketServerProtocol):
             try:
                 data = json.loads(payload)
                 if 'subscribe' in data:
-                    log.info('{} subscibes to {}'.format(self.peer, data['subscribe']))
+                    log.info(u'{} subscibes to {}'.format(self.peer, data['subscribe']))
                     self._channels.add(data['subscribe'])
                 if 'unsubscribe' in data:
-                    log.info('{} unsubscribes from {}'.format(self.peer, data['unsubscribe']))
+                    log.info(u'{} unsubscribes from {}'.format(self.peer, data['unsubscribe']))
                     self._channels.remove(data['unsubscribe'])
             except Exception:
                 pass
-- 
2.43.0


From a37c3944de9fcd4a2d2a01f27fe9a7c76d034cca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 09/71] fix: do not add white space to the text of subtitles
 when writing XML

---
 ebu_tt_live/bindings/__init__.py   | 12 +++---------
 ebu_tt_live/bindings/pyxb_utils.py | 31 ++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index fd21847..a3ea681 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -11,7 +11,7 @@ from . import _ebutts as ebutts
 from . import _ttm as ttm
 from . import _ttp as ttp
 from . import _tts as tts
-from .pyxb_utils import xml_parsing_context, get_xml_parsing_context
+from .pyxb_utils import xml_parsing_context, get_xml_parsing_context, dom_to_pretty_xml
 from .validation.base import SemanticDocumentMixin, SemanticValidationMixin, IDMixin
 from ebu_tt_live.bindings.validation.presentation import SizingValidationMixin, StyledElementMixin, RegionedElementMixin
 from ebu_tt_live.bindings.validation.timing import TimingValidationMixin, BodyTimingValidationMixin
@@ -522,10 +522,7 @@ class tt_type(SemanticDocumentMixin, raw.tt_type):
         dom = self.toDOM(self.__check_bds(bds), element_name=element_name)
         if root_only:
             dom = dom.documentElement
-        return dom.toprettyxml(
-            encoding=encoding,
-            indent='  '
-        )
+        return dom_to_pretty_xml(dom, encoding=encoding)
 
     def _semantic_after_subtree_copy(self, copied_instance, dataset, element_content=None):
         # This one does not have another parent to link with but it can make itself an element
@@ -1135,10 +1132,7 @@ class d_tt_type(raw.d_tt_type):
         dom = self.toDOM(self.__check_bds(bds), element_name=element_name)
         if root_only:
             dom = dom.documentElement
-        return dom.toprettyxml(
-            encoding=encoding,
-            indent='  '
-        )
+        return dom_to_pretty_xml(dom, encoding=encoding)
 
     def _validateBinding_vx(self):
         if self.timeBase != 'media':
diff --git a/ebu_tt_live/bindings/pyxb_utils.py b/ebu_tt_live/bindings/pyxb_utils.py
index 2fcfba8..ffc27fc 100644
--- a/ebu_tt_live/bindings/pyxb_utils.py
+++ b/ebu_tt_live/bindings/pyxb_utils.py
@@ -155,3 +155,34 @@ class RecursiveOperation(object):
 
     def _after_element(self, value, element=None, parent_binding=None, **kwargs):
         return None
+
+
+# Elements with mixed content: white space between their children is text.
+_MIXED_CONTENT_ELEMENTS = ('p', 'span')
+
+
+def _indent_element(element, indent, level):
+    children = list(element.childNodes)
+    if not children or element.tagName.split(':')[-1] in _MIXED_CONTENT_ELEMENTS or \
+            any(child.nodeType in (child.TEXT_NODE, child.CDATA_SECTION_NODE) for child in children):
+        return
+    document = element.ownerDocument
+    for child in children:
+        element.insertBefore(document.createTextNode('\n' + indent * (level + 1)), child)
+        if child.nodeType == child.ELEMENT_NODE:
+            _indent_element(child, indent, level + 1)
+    element.appendChild(document.createTextNode('\n' + indent * level))
+
+
+def dom_to_pretty_xml(dom, encoding=None, indent='  '):
+    """
+    Serialize the DOM with indentation, but unlike minidom's toprettyxml leave mixed content as it is, because
+    additional white space would become part of the subtitle text.
+
+    :param dom: DOM document or element
+    :param encoding: encoding of the output, unicode string if None
+    :param indent: indentation of a level
+    :return: XML string
+    """
+    _indent_element(dom.documentElement if dom.nodeType == dom.DOCUMENT_NODE else dom, indent, 0)
+    return dom.toxml(encoding=encoding)
-- 
2.43.0


From 78e4b84b022c0b047a4aabb7e6f5a24381d86266 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 10/71] fix: report an incompatible document as
 IncompatibleSequenceError instead of KeyError

---
 ebu_tt_live/documents/ebutt3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 96ca149..b6c409d 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -648,12 +648,12 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
         if self.sequence_identifier != document.sequence_identifier or \
                 self._reference_clock.time_base != document.time_base:
             raise IncompatibleSequenceError(
-                ERR_DOCUMENT_NOT_COMPATIBLE.format('ebuttp:sequenceIdentifier or ttp:timeBase')
+                ERR_DOCUMENT_NOT_COMPATIBLE.format(attr_names='ebuttp:sequenceIdentifier or ttp:timeBase')
             )
         if self._reference_clock.time_base == 'clock':
             if self._reference_clock.clock_mode != document.clock_mode:
                 raise IncompatibleSequenceError(
-                    ERR_DOCUMENT_NOT_COMPATIBLE.format('ttp:clockMode')
+                    ERR_DOCUMENT_NOT_COMPATIBLE.format(attr_names='ttp:clockMode')
                 )
         existing_document = None
         try:
-- 
2.43.0


From 3453cbf7b60fe3eac9c4da0a6e2af423803e9f7c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 11/71] fix: keep the order of div and p elements when writing
 a document

---
 ebu_tt_live/bindings/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index a3ea681..a1173dc 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -828,6 +828,10 @@ class div_type(ContentContainerMixin, IDMixin, RegionedElementMixin, LiveStyledE
         (pyxb.namespace.ExpandedName(None, 'end')).uriTuple(): TimingValidationMixin._pre_timing_set_attribute
     }
 
+    # Children of different types (div and p) must be written in the order they were added.
+    _validationConfig_ = pyxb.GlobalValidationConfig.copy()
+    _validationConfig_._setContentInfluencesGeneration(pyxb.ValidationConfig.ALWAYS)
+
     def _semantic_copy(self, dataset):
         copied_div = div_type(
             id=self.id,
-- 
2.43.0


From 7f446b5b1ae22090f07cbdf5d1379497f6260a9b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 12/71] fix: the styles of a div must not apply to elements
 that follow it

---
 ebu_tt_live/bindings/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index a1173dc..40bb412 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -871,6 +871,7 @@ class div_type(ContentContainerMixin, IDMixin, RegionedElementMixin, LiveStyledE
     def _semantic_after_traversal(self, dataset, element_content=None, parent_binding=None):
         self._semantic_postprocess_timing(dataset=dataset, element_content=element_content)
         self._semantic_unset_region(dataset=dataset)
+        self._semantic_pop_styles(dataset=dataset)
 
     def _semantic_before_copy(self, dataset, element_content=None):
         self._assert_in_segment(dataset=dataset, element_content=element_content)
-- 
2.43.0


From a1d09242fd8da9ee12d5a9cf7d52ad1a91ce4a6c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 13/71] fix: an element with its own region must not take its
 siblings out of the region of their parent

---
 ebu_tt_live/bindings/validation/presentation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/validation/presentation.py b/ebu_tt_live/bindings/validation/presentation.py
index 94711e4..ae7b5d6 100644
--- a/ebu_tt_live/bindings/validation/presentation.py
+++ b/ebu_tt_live/bindings/validation/presentation.py
@@ -172,8 +172,10 @@ class RegionedElementMixin(object):
     """
 
     _validated_region = None
+    _outer_region = None
 
     def _semantic_set_region(self, dataset, region_type):
+        self._outer_region = dataset.get('region', None)
         if self.region is not None:
             try:
                 region = dataset['tt_element'].get_element_by_id(self.region, region_type)
@@ -186,7 +188,9 @@ class RegionedElementMixin(object):
 
     def _semantic_unset_region(self, dataset):
         if self.region is not None:
-            dataset['region'] = None
+            # Siblings are still in the region of the parent
+            dataset['region'] = self._outer_region
+        self._outer_region = None
 
     def _semantic_copy_verify_referenced_region(self, dataset):
         orphans = dataset['orphaned_elements']
-- 
2.43.0


From bde5a0fc8aa49f4b45b5154aa05a3785497e812a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 14/71] fix: a container without content in the segment may
 refer to styles and regions that are not copied

---
 ebu_tt_live/bindings/validation/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ebu_tt_live/bindings/validation/base.py b/ebu_tt_live/bindings/validation/base.py
index c64bab6..0c660b0 100644
--- a/ebu_tt_live/bindings/validation/base.py
+++ b/ebu_tt_live/bindings/validation/base.py
@@ -125,8 +125,9 @@ class SemanticValidationMixin(object):
 
     def _find_deconflicted_elem_by_id(self, elem_id, dataset):
         old_elem = dataset['tt_element'].get_element_by_id(elem_id)
-        new_elem = dataset['instance_mapping'][old_elem]
-        return new_elem
+        # A container whose content is all outside of the segment may refer to elements that are not copied. It is
+        # going to be discarded.
+        return dataset['instance_mapping'].get(old_elem)
 
     def _semantic_deconflicted_ids(self, attr_name, dataset):
         """
@@ -140,13 +141,14 @@ class SemanticValidationMixin(object):
 
         if isinstance(old_elem_ids, six.text_type):
             new_elem = self._find_deconflicted_elem_by_id(elem_id=old_elem_ids, dataset=dataset)
-            return new_elem.id
+            return new_elem.id if new_elem is not None else None
         else:
             new_elem_ids = []
             for elem_id in old_elem_ids:
                 new_elem = self._find_deconflicted_elem_by_id(elem_id=elem_id, dataset=dataset)
-                new_elem_ids.append(new_elem.id)
-            return new_elem_ids
+                if new_elem is not None:
+                    new_elem_ids.append(new_elem.id)
+            return new_elem_ids or None
 
     def get_attribute_value(self, att_name):
         """
-- 
2.43.0


From 942196b3025dbe274544f76809098da557a24350 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 15/71] fix: extract segments of documents without styles,
 regions, body or end time

---
 ebu_tt_live/bindings/validation/timing.py    |  2 +-
 ebu_tt_live/documents/ebutt3_segmentation.py | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ebu_tt_live/bindings/validation/timing.py b/ebu_tt_live/bindings/validation/timing.py
index a7929ca..5ac2be0 100644
--- a/ebu_tt_live/bindings/validation/timing.py
+++ b/ebu_tt_live/bindings/validation/timing.py
@@ -309,7 +309,7 @@ class TimingValidationMixin(object):
 
             # Create compatible timing types
             copied_instance.begin = tt_elem.get_timing_type(trimmed_begin)
-            copied_instance.end = tt_elem.get_timing_type(trimmed_end)
+            copied_instance.end = tt_elem.get_timing_type(trimmed_end) if trimmed_end is not None else None
 
 
 class BodyTimingValidationMixin(TimingValidationMixin):
diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index 3b948ea..8a0e3d5 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -135,6 +135,8 @@ class EBUTT3Segmenter(RecursiveOperation):
 # NOTE: Some of the code below includes handling of SMPTE time base, which was removed from version 1.0 of the specification.
 
     def _convert_time(self, timedelta_value):
+        if timedelta_value is None:
+            return None
         if self.document.time_base == 'clock':
             return ebuttdt.LimitedClockTimingType(timedelta_value)
         elif self.document.time_base == 'media':
@@ -154,10 +156,11 @@ class EBUTT3Segmenter(RecursiveOperation):
             if isinstance(item, region_type):
                 self._segment.head.layout.region.remove(self._semantic_dataset['instance_mapping'][item])
 
-        if len(self._segment.head.styling.style) == 0:
-            self._segment.head.styling = None
-        if len(self._segment.head.layout.region) == 0:
-            self._segment.head.layout.region = None
+        head = self._segment.head
+        if head.styling is not None and len(head.styling.style) == 0:
+            head.styling = None
+        if head.layout is not None and len(head.layout.region) == 0:
+            head.layout.region = None
 
     def compute_document_segment(self):
         # Init
@@ -204,6 +207,6 @@ class EBUTT3Segmenter(RecursiveOperation):
         self._instance_mapping = dataset.pop('instance_mapping')
 
         # Empty document edge-case
-        if len(self._segment.body.orderedContent()) == 0:
+        if self._segment.body is not None and len(self._segment.body.orderedContent()) == 0:
             self._segment.body.begin = self._convert_time(self.begin)
             self._segment.body.end = self._convert_time(self.end)
-- 
2.43.0


From 652a11509ddd3682914075f8e38aab2ad4d0b96c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 16/71] fix: segments keep xml:space of the document and
 multiRowAlign of styles

---
 ebu_tt_live/bindings/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 40bb412..1bdea39 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -123,6 +123,7 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
             unicodeBidi=self.unicodeBidi,
             wrapOption=self.wrapOption,
             padding=self.padding,
+            multiRowAlign=self.multiRowAlign,
             linePadding=self.linePadding,
             _strict_keywords=False
         )
@@ -460,6 +461,7 @@ class tt_type(SemanticDocumentMixin, raw.tt_type):
     def __copy__(self):
         copied_tt = tt_type(
             lang=self.lang,
+            space=self.space,
             extent=self.extent,
             timeBase=self.timeBase,
             frameRate=self.frameRate,
-- 
2.43.0


From 6188b63876976fdf7219cbdeeb36a0b136cd04b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 17/71] fix: splicing documents without body and with body
 styles, and pruned styles and regions

A later document without a body made the splicer fail, the style of the first
body was applied to the content of all others (and theirs was lost), and
elements pruned from a segment came back when it was spliced.
---
 ebu_tt_live/bindings/__init__.py             | 14 ++++++++------
 ebu_tt_live/documents/ebutt3_segmentation.py | 15 ++++++++++++---
 ebu_tt_live/documents/ebutt3_splicer.py      |  8 ++++----
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 1bdea39..a9c79ce 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -967,15 +967,17 @@ class body_type(LiveStyledElementMixin, BodyTimingValidationMixin, SemanticValid
 
     def merge(self, other_elem, dataset=None):
         # TODO: Sort out timing and styling merging rules
-        merged_body = copy.copy(self)
-        merged_body.begin = None
-        merged_body.dur = None
-        merged_body.end = None
+        merged_body = body_type()
         # The same recursive ID collision issue... DAMN!
         ids = dataset['ids']
 
-        self._merge_deconflict_ids(element=self, dest=merged_body, ids=ids)
-        self._merge_deconflict_ids(element=other_elem, dest=merged_body, ids=ids)
+        for body in (self, other_elem):
+            dest = merged_body
+            if body.style or body.agent or body.role:
+                # These attributes apply to the content of this body only
+                dest = div_type(style=body.style, agent=body.agent, role=body.role, _strict_keywords=False)
+                merged_body.append(dest)
+            self._merge_deconflict_ids(element=body, dest=dest, ids=ids)
 
         return merged_body
 
diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index 8a0e3d5..b5bb791 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -144,19 +144,28 @@ class EBUTT3Segmenter(RecursiveOperation):
         else:
             return ebuttdt.SMPTETimingType(timedelta_value)
 
+    @staticmethod
+    def _remove_from_content(container, element):
+        # The ordered content is not updated by PyXB when an element is removed from its container
+        content = container.orderedContent()
+        content[:] = [item for item in content if item.value is not element]
+
     def _prune_orphan_elements(self):
         """
         Unused elements need to go from the head section.
         :return:
         """
         # TODO: This is not too nice. No time now, improve later.
+        head = self._segment.head
         for item in self._semantic_dataset['orphaned_elements']:
+            orphan = self._semantic_dataset['instance_mapping'][item]
             if isinstance(item, style_type):
-                self._segment.head.styling.style.remove(self._semantic_dataset['instance_mapping'][item])
+                head.styling.style.remove(orphan)
+                self._remove_from_content(head.styling, orphan)
             if isinstance(item, region_type):
-                self._segment.head.layout.region.remove(self._semantic_dataset['instance_mapping'][item])
+                head.layout.region.remove(orphan)
+                self._remove_from_content(head.layout, orphan)
 
-        head = self._segment.head
         if head.styling is not None and len(head.styling.style) == 0:
             head.styling = None
         if head.layout is not None and len(head.layout.region) == 0:
diff --git a/ebu_tt_live/documents/ebutt3_splicer.py b/ebu_tt_live/documents/ebutt3_splicer.py
index d449ab8..fbb672c 100644
--- a/ebu_tt_live/documents/ebutt3_splicer.py
+++ b/ebu_tt_live/documents/ebutt3_splicer.py
@@ -62,13 +62,13 @@ class EBUTT3Splicer(object):
             else:
                 merged_head = current_tt.head
 
-            if merged_body:
-                merged_body = merged_body.merge(current_tt.body, self._dataset)
-            else:
+            if merged_body is None:
                 merged_body = current_tt.body
+            elif current_tt.body is not None:
+                merged_body = merged_body.merge(current_tt.body, self._dataset)
 
-        merged_head.layout = merged_layout
         merged_head.styling = merged_styling
+        merged_head.layout = merged_layout
 
         merged_tt.head = merged_head
         merged_tt.body = merged_body
-- 
2.43.0


From e6fb636d0ffceab670b8f9ec9e5ee2775b7e0829 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 18/71] fix: relative font sizes and line heights of body and
 div refer to the region once it is known

---
 ebu_tt_live/bindings/__init__.py | 85 +++++++++++++++++---------------
 ebu_tt_live/bindings/_ebuttdt.py |  2 +
 2 files changed, 47 insertions(+), 40 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index a9c79ce..744dfc6 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -218,45 +218,37 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
     def compute_font_size(cls, specified_style, parent_computed_style, region_computed_style, dataset, defer=False):
         spec_font_size = specified_style.fontSize
         default_font_size = ebuttdt.CellFontSizeType('1c')
-        result_font_size = None
-        if spec_font_size is not None:
-            # Check relativeness
-            if isinstance(spec_font_size, ebuttdt.PercentageFontSizeType):
-                if parent_computed_style is not None and parent_computed_style.fontSize is not None:
-                    result_font_size = parent_computed_style.fontSize * spec_font_size
-                elif region_computed_style is not None and region_computed_style.fontSize is not None:
-                    result_font_size = region_computed_style.fontSize * spec_font_size
+
+        inherited_font_size = None
+        if parent_computed_style is not None:
+            inherited_font_size = parent_computed_style.fontSize
+        if inherited_font_size is None or isinstance(inherited_font_size, ebuttdt.PercentageFontSizeType):
+            # The parent has no absolute size because the region was not known there. Now it may be.
+            base_font_size = None
+            if region_computed_style is not None and region_computed_style.fontSize is not None:
+                base_font_size = region_computed_style.fontSize
+            elif defer is not True:
+                # We cannot defer any longer so now it is time to resolve it.
+                base_font_size = default_font_size
+            if base_font_size is not None:
+                if inherited_font_size is None:
+                    inherited_font_size = base_font_size
                 else:
-                    if region_computed_style is None and defer is True:
-                        # This is an edge-case. body or div can have styles attached with fontSize but may still have no
-                        # region assigned so if they are percentage based the calculation needs to be deferred.
-                        # In this case and in this case only we save percentage in the computed fontSize value
-                        result_font_size = spec_font_size
-                    else:
-                        # This means the default font size needs to be modulated by the percentage
-                        result_font_size = default_font_size * spec_font_size
-
-                if isinstance(result_font_size, ebuttdt.PercentageFontSizeType) and defer is False:
-                    # We cannot defer any longer so now it is time to resolve it.
-                    result_font_size *= default_font_size
+                    inherited_font_size = base_font_size * inherited_font_size
+
+        if isinstance(spec_font_size, ebuttdt.PercentageFontSizeType):
+            if inherited_font_size is not None:
+                result_font_size = inherited_font_size * spec_font_size
             else:
-                # TODO: control the type here
+                # This is an edge-case. body or div can have styles attached with fontSize but may still have no
+                # region assigned so if they are percentage based the calculation needs to be deferred.
+                # In this case and in this case only we save percentage in the computed fontSize value
                 result_font_size = spec_font_size
+        elif spec_font_size is not None:
+            # TODO: control the type here
+            result_font_size = spec_font_size
         else:
-            if region_computed_style is not None and region_computed_style.fontSize is not None:
-                result_font_size = region_computed_style.fontSize
-            if parent_computed_style is not None and parent_computed_style.fontSize is not None:
-                if isinstance(parent_computed_style.fontSize, ebuttdt.PercentageFontSizeType):
-                    if result_font_size is not None:
-                        # There is a region we can proceed
-                        result_font_size *= parent_computed_style.fontSize
-                    else:
-                        result_font_size = parent_computed_style.fontSize
-                else:
-                    result_font_size = parent_computed_style.fontSize
-                if defer is False:
-                    if isinstance(result_font_size, ebuttdt.PercentageFontSizeType):
-                        result_font_size *= default_font_size
+            result_font_size = inherited_font_size
 
         if result_font_size is not None:
             if isinstance(result_font_size, ebuttdt.pixelFontSizeType):
@@ -325,7 +317,8 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
         return None
 
     @classmethod
-    def compute_line_height(cls, specified_style, parent_computed_style, region_computed_style, dataset, font_size):
+    def compute_line_height(cls, specified_style, parent_computed_style, region_computed_style, dataset, font_size,
+                            defer=False):
         fallback_order = [specified_style, parent_computed_style, region_computed_style]
         for item in fallback_order:
             if item is not None and item.lineHeight is not None and 'lineHeight' not in item.default_attrs:
@@ -339,9 +332,20 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
                             dataset['tt_element'].cellResolution
                         )
                     )
-                elif isinstance(selected_value, ebuttdt.PercentageLineHeightType) and isinstance(font_size, ebuttdt.cellFontSizeType):
-                    # We only need to deal with this case if fontSize was not deferred
-                    selected_value *= font_size
+                elif isinstance(selected_value, ebuttdt.PercentageLineHeightType):
+                    # A percentage is relative to the fontSize of the element it was specified on.
+                    relative_to = font_size
+                    if item is not specified_style:
+                        # The fontSize was deferred there, so the percentage is relative to the size that was not known.
+                        # If it is not deferred any longer it is that of the region or else the default.
+                        if region_computed_style is not None and region_computed_style.fontSize is not None:
+                            relative_to = region_computed_style.fontSize
+                        elif defer is not True:
+                            relative_to = ebuttdt.CellFontSizeType('1c')
+                        else:
+                            relative_to = None
+                    if relative_to is not None:
+                        selected_value *= relative_to
 
                 return selected_value
         return None
@@ -377,7 +381,8 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
             parent_computed_style=parent_computed_style,
             region_computed_style=region_computed_style,
             dataset=dataset,
-            font_size=computed.fontSize
+            font_size=computed.fontSize,
+            defer=defer_font_size
         )
 
         if computed_line_height is None:
diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index 529eaac..dc290f5 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -666,6 +666,8 @@ class PercentageLineHeightType(TwoDimSizingMixin, ebuttdt_raw.percentageLineHeig
     def do_mul(self, other):
         if isinstance(other, CellFontSizeType):
             return CellLineHeightType(self.vertical * other.vertical / 100)
+        elif isinstance(other, PercentageFontSizeType):
+            return PercentageLineHeightType(self.vertical * other.vertical / 100)
         else:
             return NotImplemented
 
-- 
2.43.0


From b9a4fea967e3771b4ffdd97b2c492f703aa6d03c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 19/71] fix: an unbounded ring buffer with a callback accepts
 items

---
 ebu_tt_live/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/utils.py b/ebu_tt_live/utils.py
index 9ae3afc..c3a5713 100644
--- a/ebu_tt_live/utils.py
+++ b/ebu_tt_live/utils.py
@@ -78,7 +78,7 @@ class RingBufferWithCallback(collections.deque):
         super(RingBufferWithCallback, self).__init__(iterable, maxlen)
 
     def append(self, item):
-        if len(self) >= self.maxlen:
+        if self.maxlen is not None and len(self) >= self.maxlen:
             if self._callback is not None:
                 self._callback(self.popleft())
         super(RingBufferWithCallback, self).append(item)
-- 
2.43.0


From faae42f3601f8f8225080bd74e609c5b503f95ba Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 20/71] fix: a file that cannot be deleted yet must not end the
 deletion of rotated files

---
 ebu_tt_live/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/utils.py b/ebu_tt_live/utils.py
index c3a5713..778d167 100644
--- a/ebu_tt_live/utils.py
+++ b/ebu_tt_live/utils.py
@@ -140,7 +140,7 @@ class RotatingFileBuffer(RingBufferWithCallback):
                 # If not we do nothing. The loop discards the name
                 try:
                     os.remove(full_path)
-                except IOError:
+                except (IOError, OSError):
                     # Horrible! Quick, put it back... NEXT
                     failed_files.append(item)
 
-- 
2.43.0


From 296edaafced291622f0c02fcce4fda291e2d6157 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 21/71] fix: the media clock must not fall back by a day at
 midnight

---
 ebu_tt_live/clocks/media.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ebu_tt_live/clocks/media.py b/ebu_tt_live/clocks/media.py
index 8ee08c7..33093cf 100644
--- a/ebu_tt_live/clocks/media.py
+++ b/ebu_tt_live/clocks/media.py
@@ -14,21 +14,27 @@ class MediaClock(Clock):
     from the last adjusted reference time.
     """
     _reference_mapping = None
+    _reference_date = None
     _time_base = 'media'
 
     def __init__(self):
         self.adjust_time(timedelta())
 
+    @classmethod
+    def _time_of_day(cls, now):
+        return timedelta(hours=now.hour, minutes=now.minute, seconds=now.second, microseconds=now.microsecond)
+
     def get_machine_time(self):
-        now = datetime.now().time()
-        current_time = timedelta(hours=now.hour, minutes=now.minute, seconds=now.second, microseconds=now.microsecond)
-        return current_time
+        return self._time_of_day(datetime.now())
 
     def get_media_time(self, real_clock_timedelta):
         return self._reference_mapping.remote + (real_clock_timedelta - self._reference_mapping.local)
 
     def get_real_clock_time(self):
-        return self._reference_mapping.remote + (self.get_machine_time() - self._reference_mapping.local)
+        now = datetime.now()
+        # The machine time starts again at midnight but the media time goes on.
+        days = now.date() - self._reference_date
+        return self._reference_mapping.remote + days + (self._time_of_day(now) - self._reference_mapping.local)
 
     def adjust_time(self, current_time, local_time=None):
         """
@@ -39,8 +45,10 @@ class MediaClock(Clock):
         """
         if not isinstance(current_time, timedelta) or local_time is not None and not isinstance(local_time, timedelta):
             raise TimeFormatError(ERR_TIME_WRONG_FORMAT)
+        now = datetime.now()
         if local_time is None:
-            local_time = self.get_machine_time()
+            local_time = self._time_of_day(now)
+        self._reference_date = now.date()
         self._reference_mapping = ReferenceTime(local_time, current_time)
 
 # NOTE: Some of the code below includes handling of SMPTE time base, which was removed from version 1.0 of the specification.
-- 
2.43.0


From c5f83e8c2b17da181d21b30ffafe280da1fe5170 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 22/71] fix: live messages keep availability time, type and
 empty or mixed payloads, unknown types are refused

---
 ebu_tt_live/adapters/document_data.py |  4 ++--
 ebu_tt_live/documents/ebutt3.py       | 30 ++++++++++++++++++++++-----
 ebu_tt_live/strings.py                |  1 +
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/ebu_tt_live/adapters/document_data.py b/ebu_tt_live/adapters/document_data.py
index f790723..15b2b1d 100644
--- a/ebu_tt_live/adapters/document_data.py
+++ b/ebu_tt_live/adapters/document_data.py
@@ -1,6 +1,6 @@
 
 from .base import IDocumentDataAdapter
-from ebu_tt_live.documents import EBUTT3EBUTTDConverter, EBUTTDDocument, EBUTT3Document, EBUTTAuthorsGroupControlRequest
+from ebu_tt_live.documents import EBUTT3EBUTTDConverter, EBUTTDDocument, EBUTT3Document, EBUTT3ObjectBase
 from ebu_tt_live.clocks.media import MediaClock
 from ebu_tt_live.errors import UnexpectedSequenceIdentifierError
 from ebu_tt_live.bindings import CreateFromDocument, tt_type
@@ -27,7 +27,7 @@ class XMLtoEBUTT3Adapter(IDocumentDataAdapter):
             )
         else:
             # If not an ebutt live document then a message
-            doc = EBUTTAuthorsGroupControlRequest.create_from_raw_binding(
+            doc = EBUTT3ObjectBase.create_message_from_raw_binding(
                 binding_inst,
                 availability_time=availability_time
             )
diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index b6c409d..3ae64ca 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -9,9 +9,9 @@ from ebu_tt_live.strings import ERR_DOCUMENT_SEQUENCE_MISMATCH, \
     ERR_DOCUMENT_NOT_COMPATIBLE, ERR_DOCUMENT_NOT_PART_OF_SEQUENCE, \
     ERR_DOCUMENT_SEQUENCE_INCONSISTENCY, DOC_DISCARDED, DOC_TRIMMED, DOC_REQ_SEGMENT, DOC_SEQ_REQ_SEGMENT, \
     DOC_INSERTED, DOC_SEMANTIC_VALIDATION_SUCCESSFUL, ERR_SEQUENCE_FROM_DOCUMENT, \
-    ERR_DOCUMENT_SEQUENCENUMBER_COLLISION, ERR_AUTHORS_GROUP_MISMATCH
+    ERR_DOCUMENT_SEQUENCENUMBER_COLLISION, ERR_AUTHORS_GROUP_MISMATCH, ERR_MESSAGE_TYPE_UNKNOWN
 from ebu_tt_live.errors import IncompatibleSequenceError, DocumentDiscardedError, \
-    SequenceOverridden, SequenceNumberCollisionError, UnexpectedAuthorsGroupError
+    SequenceOverridden, SequenceNumberCollisionError, UnexpectedAuthorsGroupError, SemanticValidationError
 from ebu_tt_live.clocks import get_clock_from_document
 from datetime import timedelta
 from pyxb import BIND
@@ -171,7 +171,19 @@ class EBUTT3ObjectBase(object):
             xml_text=xml
         )
         if isinstance(instance, ebuttlm.message_type):
-            return cls.message_type_mapping[instance.header.type].create_from_raw_binding(instance)
+            return cls.create_message_from_raw_binding(instance, **kwargs)
+
+    @classmethod
+    def create_message_from_raw_binding(cls, binding, **kwargs):
+        """
+        Create the type of message that the header asks for
+        :param binding: message binding
+        :return: a message
+        """
+        message_class = cls.message_type_mapping.get(binding.header.type)
+        if message_class is None:
+            raise SemanticValidationError(ERR_MESSAGE_TYPE_UNKNOWN.format(message_type=binding.header.type))
+        return message_class.create_from_raw_binding(binding, **kwargs)
 
     @classmethod
     def create_from_raw_binding(cls, **kwargs):
@@ -252,12 +264,20 @@ class EBUTTAuthorsGroupControlRequest(EBUTTLiveMessage):
 
     @classmethod
     def create_from_raw_binding(cls, binding, availability_time=None, **kwargs):
+        # anyType is considered complex type so orderedContent is needed.
+        payload_content = binding.payload.orderedContent()
+        if len(payload_content) == 1:
+            payload = payload_content[0].value
+        elif len(payload_content) == 0:
+            payload = ''
+        else:
+            payload = binding.payload
         return cls(
             sequence_identifier=binding.sequenceIdentifier,
             sender=binding.header.sender,
             recipient=binding.header.recipient,
-            payload=binding.payload.orderedContent()[0].value  # anyType is considered complex type
-            # so orderedContent is needed and indexing the first component.
+            payload=payload,
+            availability_time=availability_time
         )
 
 # Register the class in the base class
diff --git a/ebu_tt_live/strings.py b/ebu_tt_live/strings.py
index b9353ee..0a31e65 100644
--- a/ebu_tt_live/strings.py
+++ b/ebu_tt_live/strings.py
@@ -23,6 +23,7 @@ ERR_SEMANTIC_VALIDATION_EXPECTED = gettext('Please run semantic validation befor
 ERR_SEMANTIC_ELEMENT_BY_ID_MISSING = gettext('Element with XML ID {id} is not found')
 ERR_SEMANTIC_REGION_MISSING = gettext('Region: {region} is not found.')
 ERR_SEMANTIC_ID_UNIQUENESS = gettext('XML ID is not unique: {id}')
+ERR_MESSAGE_TYPE_UNKNOWN = gettext('Message type: {message_type} is not known')
 ERR_DOCUMENT_NOT_COMPATIBLE = gettext('Document is not compatible with the sequence. Conflicting attributes: {attr_names}')
 ERR_DOCUMENT_NOT_PART_OF_SEQUENCE = gettext('Document is not part of any sequence')
 ERR_SEQUENCE_FROM_DOCUMENT = gettext('Sequence cannot be created from: {document}, EBUTT3Document instance expected!')
-- 
2.43.0


From b2af1910467fe04fba305c703d87550b6b770b8c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 23/71] fix: keep the sign of negative origins

---
 ebu_tt_live/bindings/_ebuttdt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index dc290f5..96edab3 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -441,7 +441,7 @@ ebuttdt_raw.smpteTimingType._SetSupersedingClass(SMPTETimingType)
 
 class PixelOriginType(TwoDimSizingMixin, SizingValidationMixin, ebuttdt_raw.pixelOriginType):
 
-    _groups_regex = re.compile('(?:[+-]?(?P<first>\d*\.?\d+)(?:px))\s(?:[+-]?(?P<second>\d*\.?\d+)(?:px))')
+    _groups_regex = re.compile('(?:(?P<first>[+-]?\d*\.?\d+)(?:px))\s(?:(?P<second>[+-]?\d*\.?\d+)(?:px))')
     _2dim_format = '{}px {}px'
 
     def _semantic_validate_sizing_context(self, dataset):
@@ -454,7 +454,7 @@ ebuttdt_raw.pixelOriginType._SetSupersedingClass(PixelOriginType)
 
 class CellOriginType(TwoDimSizingMixin, ebuttdt_raw.cellOriginType):
 
-    _groups_regex = re.compile(r'(?:[+-]?(?P<first>\d*\.?\d+)(?:c))\s(?:[+-]?(?P<second>\d*\.?\d+)(?:c))')
+    _groups_regex = re.compile(r'(?:(?P<first>[+-]?\d*\.?\d+)(?:c))\s(?:(?P<second>[+-]?\d*\.?\d+)(?:c))')
     _2dim_format = '{}c {}c'
 
 ebuttdt_raw.cellOriginType._SetSupersedingClass(CellOriginType)
@@ -462,7 +462,7 @@ ebuttdt_raw.cellOriginType._SetSupersedingClass(CellOriginType)
 
 class PercentageOriginType(TwoDimSizingMixin, ebuttdt_raw.percentageOriginType):
 
-    _groups_regex = re.compile('(?:[+-]?(?P<first>\d*\.?\d+)(?:%))\s(?:[+-]?(?P<second>\d*\.?\d+)(?:%))')
+    _groups_regex = re.compile('(?:(?P<first>[+-]?\d*\.?\d+)(?:%))\s(?:(?P<second>[+-]?\d*\.?\d+)(?:%))')
     _2dim_format = '{}% {}%'
 
 ebuttdt_raw.percentageOriginType._SetSupersedingClass(PercentageOriginType)
-- 
2.43.0


From 0ba2531fb5222487cce296cd9b2e71b0484c9250 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 24/71] fix: write very small lengths without an exponent

---
 ebu_tt_live/bindings/_ebuttdt.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index 96edab3..eea9abb 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -94,6 +94,16 @@ class _TimedeltaBindingMixin(object):
         return self.as_timedelta(self)
 
 
+def _decimal_text(number):
+    """
+    The length types have no exponent so very small or large numbers must be written in full.
+    """
+    text = '{}'.format(number)
+    if 'e' in text:
+        text = '{:.12f}'.format(number)
+    return text
+
+
 def cells_to_pixels(cells_in, root_extent, cell_resolution):
     if not isinstance(root_extent, PixelExtentType):
         raise Exception()
@@ -142,8 +152,8 @@ def named_color_to_rgba(named_color):
 
 def convert_cell_region_to_percentage(cells_in, cell_resolution):
     return '{}% {}%'.format(
-        (float(cells_in.horizontal) / float(cell_resolution.horizontal)) * 100,
-        (float(cells_in.vertical) / float(cell_resolution.vertical)) * 100
+        _decimal_text((float(cells_in.horizontal) / float(cell_resolution.horizontal)) * 100),
+        _decimal_text((float(cells_in.vertical) / float(cell_resolution.vertical)) * 100)
     )
 
 
@@ -165,6 +175,7 @@ class TwoDimSizingMixin(object):
 
     @classmethod
     def from_tuple(cls, instance):
+        instance = [_decimal_text(item) for item in instance]
         if len(instance) > 1:
             if cls._2dim_format is None:
                 raise SimpleTypeValueError(cls, ERR_1DIM_ONLY.format(
-- 
2.43.0


From 0536e17ee91463950b65cd649f7413aac6a4f15b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 25/71] fix: nodes that alter documents do not pass on the text
 the document was read from

---
 ebu_tt_live/node/deduplicator.py | 2 ++
 ebu_tt_live/node/delay.py        | 3 +++
 ebu_tt_live/node/handover.py     | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index e58364a..80ea4a7 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -46,6 +46,8 @@ class DeDuplicatorNode(AbstractCombinedNode):
                 self.remove_duplication(document=document)
 
                 document.validate()
+                # The text the document was read from does not apply to the altered document
+                kwargs.pop('raw_xml', None)
                 self.producer_carriage.emit_data(data=document, **kwargs)
 
     def remove_duplication(self, document):
diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index cfd80b8..35dc1e0 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -38,6 +38,9 @@ class RetimingDelayNode(AbstractCombinedNode):
 
             if self.check_if_document_seen(document=document):
 
+                # The text the document was read from does not apply to the altered document
+                kwargs.pop('raw_xml', None)
+
                 self.limit_sequence_to_one(document)
 
                 # change the sequence identifier
diff --git a/ebu_tt_live/node/handover.py b/ebu_tt_live/node/handover.py
index 33bfdf0..dd906ff 100644
--- a/ebu_tt_live/node/handover.py
+++ b/ebu_tt_live/node/handover.py
@@ -85,12 +85,15 @@ class HandoverNode(SwitcherNode):
                 document.authors_group_selected_sequence_identifier = document.sequence_identifier
                 document.sequence_identifier = self._sequence_identifier
                 document.sequence_number = self._last_sequence_number
+                # The text the document was read from does not apply to the altered document
+                kwargs.pop('raw_xml', None)
                 self.producer_carriage.emit_data(
                     data=document,
                     **kwargs
                 )
         else:
             document.sequence_identifier = self._sequence_identifier
+            kwargs.pop('raw_xml', None)
             self.producer_carriage.emit_data(
                 data=document,
                 **kwargs
-- 
2.43.0


From c8ff18657f8540c8f0798ac21128c1beb77cf5bd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 26/71] fix: the retiming delay extends a body duration without
 begin

---
 ebu_tt_live/node/delay.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index 35dc1e0..37be8a3 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -129,6 +129,13 @@ def update_children_timing(element, timebase, delay_int):
                     child.value.begin = FullClockTimingType(child.value.begin.timedelta + delay.timedelta)
 
             else:
+                # The duration of an element without begin counts from a point in time that does not move
+                if hasattr(child.value, 'dur') and child.value.dur != None:
+                    if timebase == 'clock':
+                        child.value.dur = LimitedClockTimingType(child.value.dur.timedelta + timedelta(seconds=delay_int))
+                    elif timebase == 'media':
+                        child.value.dur = FullClockTimingType(child.value.dur.timedelta + timedelta(seconds=delay_int))
+
                 update_children_timing(child.value, timebase, delay_int)
 
 
-- 
2.43.0


From 20864f56c91f23c8c3a382e80605f270ccf69df2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 27/71] fix: documents with non-ASCII characters on the file
 system

---
 ebu_tt_live/carriage/filesystem.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/carriage/filesystem.py b/ebu_tt_live/carriage/filesystem.py
index ef4db44..be2c00b 100644
--- a/ebu_tt_live/carriage/filesystem.py
+++ b/ebu_tt_live/carriage/filesystem.py
@@ -153,8 +153,8 @@ class FilesystemProducerImpl(AbstractProducerCarriage):
         # can be selected once at the beginning and dereferenced rather than repeating
         # if statements.
         filepath = os.path.join(self._dirpath, filename)
-        with open(filepath, 'w') as destfile:
-            destfile.write(data)
+        with open(filepath, 'wb') as destfile:
+            destfile.write(data.encode('utf-8') if isinstance(data, six.text_type) else data)
             destfile.flush()
                         
         # If we're running a rotating buffer remember this file for possible deletion later
@@ -256,7 +256,12 @@ class FilesystemReader(object):
                     availability_time_str, xml_file_name = manifest_line.rstrip().split(',')
                     xml_file_path = os.path.join(self._dirpath, xml_file_name)
                     xml_content = None
-                    with open(xml_file_path, 'r') as xml_file:
+                    with open(xml_file_path, 'rb') as xml_file:
                         xml_content = xml_file.read()
+                    try:
+                        xml_content = xml_content.decode('utf-8')
+                    except UnicodeDecodeError:
+                        # Another encoding, leave it to the XML parser.
+                        pass
                     data = [availability_time_str, xml_content]
                     self._custom_consumer.on_new_data(data)
-- 
2.43.0


From eb655819b76bbc2c39d03d494fd4b996918a3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 28/71] fix: any sequence identifier gives usable names of
 files and manifest lines

---
 ebu_tt_live/carriage/filesystem.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/carriage/filesystem.py b/ebu_tt_live/carriage/filesystem.py
index be2c00b..f949ff0 100644
--- a/ebu_tt_live/carriage/filesystem.py
+++ b/ebu_tt_live/carriage/filesystem.py
@@ -7,6 +7,7 @@ from ebu_tt_live.strings import FS_DEFAULT_CLOCK_USED, FS_MISSING_AVAILABILITY,
 from datetime import timedelta
 import logging
 import six
+from six.moves.urllib.parse import quote
 import os
 import time
 
@@ -27,6 +28,19 @@ def timestr_manifest_to_timedelta(timestr):
         seconds, milliseconds = rest.split(".")
         return timedelta(hours=int(hours), minutes=int(minutes), seconds=int(seconds), milliseconds=int(milliseconds))
 
+
+def file_name_part(sequence_identifier):
+    """
+    A sequence identifier may contain characters that can not be part of a file name or of a line of the manifest.
+    Those are percent encoded, along with the percent sign, to keep the names of different sequences different.
+    """
+    if not isinstance(sequence_identifier, six.text_type):
+        return sequence_identifier
+    return ''.join(
+        str(char) if u' ' <= char <= u'~' and char not in u'%/,' else quote(char.encode('utf-8'), safe='')
+        for char in sequence_identifier
+    )
+
 # NOTE: Some of the code below includes handling of SMPTE time base, which was removed from version 1.0 of the specification.
 
 class FilesystemProducerImpl(AbstractProducerCarriage):
@@ -141,12 +155,12 @@ class FilesystemProducerImpl(AbstractProducerCarriage):
             self._msg_counter += 1
             filename = self._message_file_name_pattern.format(
                 counter=self._msg_counter, 
-                sequence_identifier=sequence_identifier)
+                sequence_identifier=file_name_part(sequence_identifier))
         else:
             # It's a Part 3 document, so use the sequence number.
             filename = self._file_name_pattern.format(
                 counter=sequence_number, 
-                sequence_identifier=sequence_identifier)
+                sequence_identifier=file_name_part(sequence_identifier))
             
         # TODO: consider using different classes or functions to do the document writing,
         # depending on the settings of suppress_manifest and rotating_buf etc that
@@ -191,7 +205,7 @@ class FilesystemProducerImpl(AbstractProducerCarriage):
             # Open the manifest filepath
             if self._manifest_path is None :
                 manifest_filename = CFG_MANIFEST_FILENAME_PATTERN.format(
-                    sequence_identifier=sequence_identifier)
+                    sequence_identifier=file_name_part(sequence_identifier))
                 self._manifest_path = os.path.join(self._dirpath, manifest_filename)
                 
             # Write a new line to the manifest file
@@ -253,7 +267,7 @@ class FilesystemReader(object):
                         break
                 else:
                     # If CFG_MANIFEST_LINE_PATTERN changes, then the parsing below needs to change too.
-                    availability_time_str, xml_file_name = manifest_line.rstrip().split(',')
+                    availability_time_str, xml_file_name = manifest_line.rstrip().split(',', 1)
                     xml_file_path = os.path.join(self._dirpath, xml_file_name)
                     xml_content = None
                     with open(xml_file_path, 'rb') as xml_file:
-- 
2.43.0


From cae8855552e1ab702cc03abd471b93d73b4117c8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 29/71] fix: tailing a manifest waits for the end of an
 incomplete line

---
 ebu_tt_live/carriage/filesystem.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/carriage/filesystem.py b/ebu_tt_live/carriage/filesystem.py
index f949ff0..5314757 100644
--- a/ebu_tt_live/carriage/filesystem.py
+++ b/ebu_tt_live/carriage/filesystem.py
@@ -255,8 +255,14 @@ class FilesystemReader(object):
 
     def resume_reading(self):
         with open(self._manifest_path, 'r') as manifest_file:
+            incomplete_line = ''
             while True:
-                manifest_line = manifest_file.readline()
+                manifest_line = incomplete_line + manifest_file.readline()
+                incomplete_line = ''
+                if not manifest_line.endswith('\n') and self._do_tail:
+                    # The rest of this line is yet to be written
+                    incomplete_line = manifest_line
+                    manifest_line = ''
                 if not manifest_line:
                     if self._do_tail:
                         try:
-- 
2.43.0


From c99b5d5b4f0568aaf792638476205d6b57c6ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 30/71] fix: the fraction of a second in a manifest may have
 any number of digits

---
 ebu_tt_live/carriage/filesystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/carriage/filesystem.py b/ebu_tt_live/carriage/filesystem.py
index 5314757..645c8c0 100644
--- a/ebu_tt_live/carriage/filesystem.py
+++ b/ebu_tt_live/carriage/filesystem.py
@@ -25,8 +25,9 @@ def timedelta_to_str_manifest(timed):
 
 def timestr_manifest_to_timedelta(timestr):
         hours, minutes, rest = timestr.split(":")
-        seconds, milliseconds = rest.split(".")
-        return timedelta(hours=int(hours), minutes=int(minutes), seconds=int(seconds), milliseconds=int(milliseconds))
+        seconds, _, fraction = rest.partition(".")
+        return timedelta(hours=int(hours), minutes=int(minutes), seconds=int(seconds),
+                         microseconds=int(fraction[:6].ljust(6, '0')))
 
 
 def file_name_part(sequence_identifier):
-- 
2.43.0


From 67fcd0fb948d3f4ca86fedbb5c4751d71788ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 31/71] fix: documents of a sequence are looked up by their
 sequence number, not by position

---
 ebu_tt_live/documents/ebutt3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 3ae64ca..949677c 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -942,7 +942,11 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
             self._last_sequence_number = document.sequence_number
 
     def get_document(self, seq_id):
-        return self._documents[seq_id]
+        # The documents are ordered by their sequence numbers, which are not their positions
+        position = self._documents.bisect_key_left(seq_id)
+        if position == len(self._documents) or self._documents[position].sequence_number != seq_id:
+            raise KeyError(seq_id)
+        return self._documents[position]
 
     def _find_resolved_begin_event(self, document):
         if document not in self._documents:
-- 
2.43.0


From 8bb79ef6df46370910d5d1b64d8eddd11e7a53bb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:18:59 +0000
Subject: [PATCH 32/71] fix: EBUTT3toEBUTTDAdapter converts documents

---
 ebu_tt_live/adapters/document_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/adapters/document_data.py b/ebu_tt_live/adapters/document_data.py
index 15b2b1d..a4845a4 100644
--- a/ebu_tt_live/adapters/document_data.py
+++ b/ebu_tt_live/adapters/document_data.py
@@ -106,7 +106,7 @@ class EBUTT3toEBUTTDAdapter(IDocumentDataAdapter):
         self._converter = EBUTT3EBUTTDConverter(media_clock=media_clock)
 
     def convert_data(self, data, **kwargs):
-        return EBUTTDDocument.create_from_raw_binding(self._converter.convert_document(data)), kwargs
+        return EBUTTDDocument.create_from_raw_binding(self._converter.convert_document(data.binding)), kwargs
 
 
 def get_document_data_adapter(expects, provides):
-- 
2.43.0


From 42ad8ba665a6ef2f3e4a2aa2fbade12ac0c9bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:18:59 +0000
Subject: [PATCH 33/71] fix: a chain of data adapters has to fit together at
 every link

---
 ebu_tt_live/adapters/node_carriage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebu_tt_live/adapters/node_carriage.py b/ebu_tt_live/adapters/node_carriage.py
index 1fa42e0..f696cfc 100644
--- a/ebu_tt_live/adapters/node_carriage.py
+++ b/ebu_tt_live/adapters/node_carriage.py
@@ -39,6 +39,10 @@ class AbstractNodeCarriageAdapter(INodeCarriageAdapter):
         if len(data_adapters):
             if data_adapters[0].expects() != provides or data_adapters[-1].provides() != expects:
                 success = False
+            for first, second in zip(data_adapters, data_adapters[1:]):
+                # The output of every adapter has to be what the next one works on
+                if first.provides() != second.expects():
+                    success = False
         elif expects == provides:
             success = True
         else:
-- 
2.43.0


From 3c9e8be4d2a8cb1ff6c4bd1422c342424585d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 34/71] fix: read EBU-TT-D documents, and live documents
 without a time base, without KeyError

---
 ebu_tt_live/bindings/_ebuttdt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index eea9abb..3dbe873 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -61,8 +61,8 @@ class _TimedeltaBindingMixin(object):
         context = get_xml_parsing_context()
         if context is not None:
             # This means we are in XML parsing context. There should be a timeBase and a timing_attribute_name in the
-            # context object.
-            time_base = context['timeBase']
+            # context object. If there is none the document is not valid, or it is not a live document.
+            time_base = context.get('timeBase')
             # It is possible for a timing type to exist as the value of an element not an attribute,
             # in which case no timing_attribute_name is in the context; in that case don't attempt
             # to validate the data against a timebase. At the moment this only affects the
-- 
2.43.0


From 0b64dfc79e08ab1a9974614188344010de4296d8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 35/71] fix: EBU-TT-D documents with a prefix or with non-ASCII
 characters can be read

---
 ebu_tt_live/documents/ebuttd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/documents/ebuttd.py b/ebu_tt_live/documents/ebuttd.py
index 7934799..b2b32ad 100644
--- a/ebu_tt_live/documents/ebuttd.py
+++ b/ebu_tt_live/documents/ebuttd.py
@@ -1,4 +1,5 @@
 import logging
+import six
 from xml.dom import minidom
 from .base import SubtitleDocument, TimeBase
 from ebu_tt_live import bindings
@@ -36,9 +37,13 @@ class EBUTTDDocument(SubtitleDocument):
     def create_from_xml(cls, xml):
         # NOTE: This is a workaround to make the bindings accept separate root element identities
         # for the same name. tt comes in but we rename it to ttd to make the xsd validate.
+        if isinstance(xml, six.text_type):
+            xml = xml.encode('utf-8')
         xml_dom = minidom.parseString(xml)
-        if xml_dom.documentElement.tagName == 'tt':
-            xml_dom.documentElement.tagName = 'ttd'
+        # The name may have a prefix, as it does in the documents written by get_xml
+        prefix, colon, name = xml_dom.documentElement.tagName.rpartition(':')
+        if name == 'tt':
+            xml_dom.documentElement.tagName = prefix + colon + 'ttd'
         instance = cls.create_from_raw_binding(
             binding=bindings.CreateFromDOM(
                 xml_dom
-- 
2.43.0


From 8db72c2be660296533672a4262e5c43cfc581ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 36/71] fix: de-duplication compares styles and regions
 completely and keeps the presentation

---
 ebu_tt_live/node/deduplicator.py | 148 ++++++++++++++++---------------
 1 file changed, 76 insertions(+), 72 deletions(-)

diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index 80ea4a7..5c4dcdf 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -53,52 +53,63 @@ class DeDuplicatorNode(AbstractCombinedNode):
     def remove_duplication(self, document):
         old_id_dict = dict({})
         new_id_dict = dict({})
-        hash_dict = dict({})
-
-        if document.binding.head.styling is not None:
-            styles = document.binding.head.styling.style
-            print styles
-            document.binding.head.styling.style = None
-
-            self.CollateUniqueVals(styles, old_id_dict, new_id_dict, hash_dict)
-            self.AppendNewElements(styles, document.binding.head.styling.style, \
-                                   old_id_dict, new_id_dict, hash_dict)
+        head = document.binding.head
 
-        if document.binding.head.layout is not None:
-            regions = document.binding.head.layout.region
-            document.binding.head.layout.region = None
-
-            self.CollateUniqueVals(regions, old_id_dict, new_id_dict, hash_dict)
-            self.AppendNewElements(regions, document.binding.head.layout.region, \
-                                   old_id_dict, new_id_dict, hash_dict)
+        if head.styling is not None:
+            self._remove_duplicates_from(head.styling, head.styling.style, old_id_dict, new_id_dict)
 
+        if head.layout is not None:
+            self._remove_duplicates_from(head.layout, head.layout.region, old_id_dict, new_id_dict)
 
         replace_id_refs = ReplaceStylesAndRegions(document.binding, \
                                                       old_id_dict, \
                                                       new_id_dict)
         replace_id_refs.proceed()
 
+    def _remove_duplicates_from(self, container, element_list, old_id_dict, new_id_dict):
+        """
+        Leaves only the unique style or region elements in their container
+        """
+        hash_dict = dict({})
+        unique_elements = []
+        self.CollateUniqueVals(element_list, old_id_dict, new_id_dict, hash_dict)
+        self.AppendNewElements(element_list, unique_elements, \
+                               old_id_dict, new_id_dict, hash_dict)
+        unique = set(id(element) for element in unique_elements)
+        removed = [element for element in element_list if id(element) not in unique]
+        for element in removed:
+            element_list.remove(element)
+        # The ordered content is not updated by PyXB when an element is removed from its container
+        removed = set(id(element) for element in removed)
+        content = container.orderedContent()
+        content[:] = [item for item in content if id(item.value) not in removed]
+
     def CollateUniqueVals(self, element_list, old_id_dict, new_id_dict, \
                           hash_dict):
         """
         Creates a `dict()` of all unique style/region names
         """
-        for value in element_list:
-            #deduplicating in-line style attributes
-            if value.style is not None:
-                for old_id_index in range(len(value.style)):
-                    old_id_ref = old_id_dict.get(value.style[old_id_index])
-                    new_id_ref = new_id_dict.get(old_id_ref)
+        pending = dict((value.id, value) for value in element_list)
 
-                    value.style[old_id_index] = new_id_ref
+        def collate(value):
+            pending.pop(value.id, None)
+            if value.style is not None:
+                # Two styles are the same if they refer to the same styles, so the referred ones go first
+                for style_id in value.style:
+                    if style_id in pending:
+                        collate(pending[style_id])
+                replace_style_ids(value, lambda style_id: hash_dict[old_id_dict[style_id]].id \
+                    if old_id_dict.get(style_id) in hash_dict else new_id_dict.get(old_id_dict.get(style_id), style_id))
+
+            unique_val = ComparableElement(value)
+            # stores references of original <xml:id> to the comparable element
+            old_id_dict[value.id] = unique_val
+            # stores references of the comparable element to the first element that is equal to it
+            hash_dict.setdefault(unique_val, value)
 
-            #deduplicating elements
-            if value is not None:
-                unique_val = ComparableElement(value)
-                # stores references of original <xml:id> to <my_hash>
-                old_id_dict[value.id] = unique_val.my_hash
-                # stores references of <my_hash> to element
-                hash_dict[unique_val.my_hash] = value
+        for value in element_list:
+            if value.id in pending:
+                collate(value)
 
     def AppendNewElements(self, element_list, element_to_append_to, old_id_dict, \
                           new_id_dict, hash_dict):
@@ -106,13 +117,26 @@ class DeDuplicatorNode(AbstractCombinedNode):
         Replaces starting style and region elements with the unique ones identified in
         CollateUniqueVals
         """
-        for hash_val, new_id in hash_dict.iteritems():
+        for old_element in element_list:
+            unique_val = old_id_dict[old_element.id]
+            if hash_dict[unique_val] is old_element:
+                element_to_append_to.append(old_element)
+                new_id_dict[unique_val] = old_element.id
+
 
-            for old_element in element_list:
-                if old_element.id is new_id.id:
-                    element_to_append_to.append(new_id)
+def replace_style_ids(value, new_id):
+    """
+    Replaces the style references of an element. The first one of several references to the same style decides
+    about its place in the order of styles, the others are dropped.
+    """
+    style_ids = []
+    for old_id in value.style:
+        style_id = new_id(old_id)
+        if style_id not in style_ids:
+            style_ids.append(style_id)
+    if style_ids != list(value.style):
+        value.style = style_ids
 
-            new_id_dict[hash_val] = new_id.id
 
 def ReplaceNone(attr_value):
     """
@@ -128,34 +152,26 @@ def ReplaceNone(attr_value):
 
 class ComparableElement:
     """
-    Takes all the attributes of an element and returns a hash value
+    Takes all the attributes of an element except its id, to be compared with those of others
     """
     def __init__(self, value):
         self.value = value
 
-        attributeDict = value._AttributeMap.copy()
+        attributes = {}
         xml_id_attr = ExpandedName('http://www.w3.org/XML/1998/namespace', 'id')
-        attributeDict.pop(xml_id_attr) # This shouldn't throw an error, but if it does, something's wrong
-
-        # sorted to make sure that for two elements with the same set of
-        # attributes the values are put into the hash string in the same order
-        sortedDict = sorted(attributeDict.items(), key=lambda t: t[0])
-
-        concatenatedStyleString = u''
-        for key,val in sortedDict:
-            styleValue = ReplaceNone(val.value(value))
-            concatenatedStyleString += str(styleValue) + '%'
+        for key, attribute_use in value._AttributeMap.items():
+            attr_value = attribute_use.value(value)
+            if key != xml_id_attr and attr_value is not None:
+                attributes[key.uriTuple()] = attr_value.xsdLiteral()
 
-        for key,val in value.wildcardAttributeMap().items():
-            namespace = ReplaceNone(key.namespaceURI())
-            localName = key.localName()
-            wildcardValue = ReplaceNone(val)
-            concatenatedStyleString += namespace + '%' + localName + '%' + wildcardValue
+        for key, attr_value in value.wildcardAttributeMap().items():
+            attributes[key.uriTuple()] = attr_value
 
-        self.my_hash = hash(concatenatedStyleString)
+        self.attributes = frozenset(attributes.items())
+        self.my_hash = hash(self.attributes)
 
     def __eq__(self, other):
-        return other and self.my_hash == other.my_hash
+        return isinstance(other, ComparableElement) and self.attributes == other.attributes
 
     def __ne__(self, other):
         return not self.__eq__(other)
@@ -176,6 +192,9 @@ class ReplaceStylesAndRegions(RecursiveOperation):
             self.old_id_dict = old_id_dict
             self.new_id_dict = new_id_dict
 
+    def _new_id(self, old_id):
+        return self.new_id_dict.get(self.old_id_dict.get(old_id), old_id)
+
     def _is_begin_timed(self, value):
         pass
 
@@ -195,28 +214,13 @@ class ReplaceStylesAndRegions(RecursiveOperation):
         # style attributes on other elements, so we have to avoid getting confused by them
         if hasattr(value, 'style') and value.style is not None and not \
         isinstance(value, bindings.styling):
-            id_to_index_dict = dict()
-            # Stepping backwards to preserve hierarchy of style attributes
-            for old_id_index in range(len(value.style)-1, -1, -1):
-                old_id_ref = self.old_id_dict.get(value.style[old_id_index])
-                new_id_ref = self.new_id_dict.get(old_id_ref)
-
-                # Next two lines remove in-line style duplication
-                if new_id_ref in id_to_index_dict:
-                    del value.style[id_to_index_dict[new_id_ref]]
-
-                id_to_index_dict[new_id_ref] = old_id_index
-
-                value.style[old_id_index] = new_id_ref
+            replace_style_ids(value, self._new_id)
         else:
             pass
 
         if hasattr(value, 'region') and value.region is not None and not \
         isinstance(value, bindings.layout):
-            old_id_ref = self.old_id_dict.get(value.region)
-            new_id_ref = self.new_id_dict.get(old_id_ref)
-
-            value.region = new_id_ref
+            value.region = self._new_id(value.region)
         else:
             pass
 
-- 
2.43.0


From b547cfd52c81d51e2c5100f3c1fa31e1ef1da130 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 37/71] fix: EBU-TT-D conversion keeps the line height of each
 paragraph and span

---
 .../bindings/converters/ebutt3_ebuttd.py      | 75 ++++++++++---------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index 39bfabc..fcad319 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -40,28 +40,33 @@ class EBUTT3EBUTTDConverter(object):
     def _adjusted_font_style_map(self):
         return self._semantic_dataset.setdefault(self._dataset_key_for_font_styles, {})
 
-    def _get_font_size_style(self, vertical, dataset, horizontal=None):
+    def _get_font_size_style(self, vertical, dataset, horizontal=None, line_height=None):
         """
         This function either points us to an already generated version of this style or creates it on demand.
-        :param vertical:
+        :param vertical: font size in percent or None if it does not change
         :param horizontal:
+        :param line_height: line height in percent, 'normal' or None if it does not change
         :return:
         """
         font_style_id = self._font_size_style_template.format(horizontal, vertical)
+        if line_height is not None:
+            font_style_id = '{}_{}'.format(font_style_id, line_height)
         adjusted_font_style_map = self._adjusted_font_style_map()
         if font_style_id in adjusted_font_style_map:
             instance = adjusted_font_style_map[font_style_id]
             return instance
-        elif horizontal is None:
-            instance = d_style_type(
-                id=font_style_id,
-                fontSize=ebuttdt.PercentageFontSizeType(vertical)
-            )
-        else:
-            instance = d_style_type(
-                id=font_style_id,
-                fontSize=ebuttdt.PercentageFontSizeType(horizontal, vertical)
-            )
+
+        instance = d_style_type(
+            id=font_style_id
+        )
+        if vertical is not None and horizontal is None:
+            instance.fontSize = ebuttdt.PercentageFontSizeType(vertical)
+        elif vertical is not None:
+            instance.fontSize = ebuttdt.PercentageFontSizeType(horizontal, vertical)
+        if line_height == 'normal':
+            instance.lineHeight = line_height
+        elif line_height is not None:
+            instance.lineHeight = ebuttdt.PercentageLineHeightType(line_height)
 
         adjusted_font_style_map[font_style_id] = instance
 
@@ -86,31 +91,27 @@ class EBUTT3EBUTTDConverter(object):
             if isinstance(elem, p_type):
                 # Since we eliminated all our fontSize attributes from the original styles here it is
                 # as simple as computing based on the default value. p does not recurse
-                default_font_size = ebuttdt.CellFontSizeType('1c')
-                if default_font_size == computed_font_size:
-                    return
-                else:
-                    relative_font_size = computed_font_size / default_font_size
-                    adjusted_style = self._get_font_size_style(
-                        vertical=relative_font_size.vertical,
-                        dataset=dataset
-                    )
-
-            elif isinstance(elem, span_type):
-                parent_computed_font_size = parent.computed_style.fontSize
-                if parent_computed_font_size == computed_font_size:
-                    return
-                else:
-                    relative_font_size = computed_font_size / parent_computed_font_size
-                    adjusted_style = self._get_font_size_style(
-                        vertical=relative_font_size.vertical,
-                        dataset=dataset
-                    )
-
-            if isinstance(computed_line_height, ebuttdt.CellLineHeightType):
-                adjusted_style.lineHeight = ebuttdt.PercentageLineHeightType(
-                    computed_line_height.vertical / computed_font_size.vertical * 100
-                )
+                parent_font_size = ebuttdt.CellFontSizeType('1c')
+                parent_line_height = 'normal'
+            else:
+                parent_font_size = parent.computed_style.fontSize
+                parent_line_height = parent.computed_style.lineHeight
+
+            vertical = line_height = None
+            if not parent_font_size == computed_font_size:
+                vertical = (computed_font_size / parent_font_size).vertical
+            if not parent_line_height == computed_line_height:
+                line_height = 'normal'
+                if isinstance(computed_line_height, ebuttdt.CellLineHeightType):
+                    line_height = computed_line_height.vertical / computed_font_size.vertical * 100
+            if vertical is None and line_height is None:
+                return
+
+            adjusted_style = self._get_font_size_style(
+                vertical=vertical,
+                dataset=dataset,
+                line_height=line_height
+            )
             if celem.style is None:
                 celem.style = [
                     adjusted_style.id
-- 
2.43.0


From 920be42175dc10b14a01c320f7b958eac1fa7ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 38/71] fix: EBU-TT-D conversion keeps multiRowAlign and the
 styles of the body

---
 ebu_tt_live/bindings/converters/ebutt3_ebuttd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index fcad319..6cd7993 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -233,6 +233,7 @@ class EBUTT3EBUTTDConverter(object):
             textDecoration=style_in.textDecoration,
             unicodeBidi=style_in.unicodeBidi,
             wrapOption=style_in.wrapOption,
+            multiRowAlign=style_in.multiRowAlign,
             padding=style_in.padding,
             linePadding=style_in.linePadding,
             _strict_keywords=False
@@ -244,6 +245,7 @@ class EBUTT3EBUTTDConverter(object):
             return None
         new_elem = d_body_type(
             *self.convert_children(body_in, dataset),
+            style=body_in.style,
             agent=body_in.agent,
             role=body_in.role
         )
-- 
2.43.0


From c2af1b9b69485a3eb68165d18dc39d2bc079a389 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 39/71] fix: EBU-TT-D conversion keeps what styles take from
 the styles they refer to

---
 .../bindings/converters/ebutt3_ebuttd.py      | 33 +++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index 6cd7993..185e8fd 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -128,9 +128,31 @@ class EBUTT3EBUTTDConverter(object):
             root_element.head.styling = d_styling_type()
         root_element.head.styling.style.extend(adjusted_fonts.values())
 
+    def _convert_style_references(self, style_ids, dataset):
+        """
+        The styles of EBU-TT-D do not refer to other styles so elements need to refer to all of them directly.
+        """
+        if style_ids is None:
+            return None
+        referenced = []
+
+        def add(ids):
+            for style_id in ids:
+                if style_id not in referenced:
+                    referenced.append(style_id)
+                    style_elem = dataset['styles'].get(style_id)
+                    if style_elem is not None and style_elem.style is not None:
+                        add(style_elem.style)
+
+        add(style_ids)
+        return referenced
+
     def convert_tt(self, tt_in, dataset):
         dataset['timeBase'] = tt_in.timeBase
         dataset['cellResolution'] = tt_in.cellResolution
+        dataset['styles'] = {}
+        if tt_in.head.styling is not None:
+            dataset['styles'] = dict((style_elem.id, style_elem) for style_elem in tt_in.head.styling.style)
         new_elem = ttd(
             head=self.convert_element(tt_in.head, dataset),
             body=self.convert_element(tt_in.body, dataset),
@@ -190,7 +212,7 @@ class EBUTT3EBUTTDConverter(object):
             id=region_in.id,
             origin=origin,
             extent=extent,
-            style=region_in.style,
+            style=self._convert_style_references(region_in.style, dataset),
             displayAlign=region_in.displayAlign,
             padding=region_in.padding,
             writingMode=region_in.writingMode,
@@ -220,7 +242,6 @@ class EBUTT3EBUTTDConverter(object):
         new_elem = d_style_type(
             *self.convert_children(style_in, dataset),
             id=style_in.id,
-            style=style_in.style,  # there is no ordering requirement in styling so too soon to deconflict here
             direction=style_in.direction,
             fontFamily=style_in.fontFamily,
             fontSize=None,  # This will be regenerated in separate style. This is necessary due to % fontSize conversions
@@ -245,7 +266,7 @@ class EBUTT3EBUTTDConverter(object):
             return None
         new_elem = d_body_type(
             *self.convert_children(body_in, dataset),
-            style=body_in.style,
+            style=self._convert_style_references(body_in.style, dataset),
             agent=body_in.agent,
             role=body_in.role
         )
@@ -256,7 +277,7 @@ class EBUTT3EBUTTDConverter(object):
             *self.convert_children(div_in, dataset),
             id=div_in.id,
             region=div_in.region,
-            style=div_in.style,
+            style=self._convert_style_references(div_in.style, dataset),
             agent=div_in.agent
         )
         return new_elem
@@ -270,7 +291,7 @@ class EBUTT3EBUTTDConverter(object):
             lang=p_in.lang,
             id=p_in.id,
             region=p_in.region,
-            style=p_in.style,
+            style=self._convert_style_references(p_in.style, dataset),
             agent=p_in.agent,
             role=p_in.role
         )
@@ -284,7 +305,7 @@ class EBUTT3EBUTTDConverter(object):
             end=self._process_timing_type(span_in.end, dataset=dataset),
             lang=span_in.lang,
             id=span_in.id,
-            style=span_in.style,
+            style=self._convert_style_references(span_in.style, dataset),
             agent=span_in.agent,
             role=span_in.role
         )
-- 
2.43.0


From 4c081279e1fc5f333834d933c49b19af8a938823 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 40/71] fix: EBU-TT-D conversion turns pixel regions into
 percentages

---
 ebu_tt_live/bindings/_ebuttdt.py                 | 7 +++++++
 ebu_tt_live/bindings/converters/ebutt3_ebuttd.py | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index 3dbe873..624a75e 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -157,6 +157,13 @@ def convert_cell_region_to_percentage(cells_in, cell_resolution):
     )
 
 
+def convert_pixel_region_to_percentage(pixels_in, root_extent):
+    return '{}% {}%'.format(
+        _decimal_text((float(pixels_in.horizontal) / float(root_extent.horizontal)) * 100),
+        _decimal_text((float(pixels_in.vertical) / float(root_extent.vertical)) * 100)
+    )
+
+
 class TwoDimSizingMixin(object):
 
     _groups_regex = None
diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index 185e8fd..95ec337 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -150,6 +150,7 @@ class EBUTT3EBUTTDConverter(object):
     def convert_tt(self, tt_in, dataset):
         dataset['timeBase'] = tt_in.timeBase
         dataset['cellResolution'] = tt_in.cellResolution
+        dataset['extent'] = tt_in.extent
         dataset['styles'] = {}
         if tt_in.head.styling is not None:
             dataset['styles'] = dict((style_elem.id, style_elem) for style_elem in tt_in.head.styling.style)
@@ -203,10 +204,14 @@ class EBUTT3EBUTTDConverter(object):
         if origin is not None:
             if isinstance(origin, ebuttdt.cellOriginType):
                 origin = ebuttdt.convert_cell_region_to_percentage(origin, dataset['cellResolution'])
+            elif isinstance(origin, ebuttdt.pixelOriginType):
+                origin = ebuttdt.convert_pixel_region_to_percentage(origin, dataset['extent'])
         extent = region_in.extent
         if extent is not None:
             if isinstance(extent, ebuttdt.cellExtentType):
                 extent = ebuttdt.convert_cell_region_to_percentage(extent, dataset['cellResolution'])
+            elif isinstance(extent, ebuttdt.pixelExtentType):
+                extent = ebuttdt.convert_pixel_region_to_percentage(extent, dataset['extent'])
         new_elem = d_region_type(
             *self.convert_children(region_in, dataset),
             id=region_in.id,
-- 
2.43.0


From 144a7c4053a506bbc08970bf56aa0848dc16d657 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 41/71] fix: EBU-TT-D conversion leaves out empty divs, which
 EBU-TT-D does not have

---
 ebu_tt_live/bindings/converters/ebutt3_ebuttd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index 95ec337..5018374 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -267,10 +267,11 @@ class EBUTT3EBUTTDConverter(object):
         return new_elem
 
     def convert_body(self, body_in, dataset):
-        if len(body_in.div) == 0:
+        children = self.convert_children(body_in, dataset)
+        if len(children) == 0:
             return None
         new_elem = d_body_type(
-            *self.convert_children(body_in, dataset),
+            *children,
             style=self._convert_style_references(body_in.style, dataset),
             agent=body_in.agent,
             role=body_in.role
@@ -278,8 +279,12 @@ class EBUTT3EBUTTDConverter(object):
         return new_elem
 
     def convert_div(self, div_in, dataset):
+        children = self.convert_children(div_in, dataset)
+        if len(children) == 0:
+            # EBU-TT-D has no empty divs
+            return None
         new_elem = d_div_type(
-            *self.convert_children(div_in, dataset),
+            *children,
             id=div_in.id,
             region=div_in.region,
             style=self._convert_style_references(div_in.style, dataset),
-- 
2.43.0


From 42ecb6ebec16260420918720a8e846df021302eb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 42/71] fix: the EBU-TT-D encoder accepts documents that come
 with a sequence identifier or a time base

---
 ebu_tt_live/node/encoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/node/encoder.py b/ebu_tt_live/node/encoder.py
index 5091771..098e881 100644
--- a/ebu_tt_live/node/encoder.py
+++ b/ebu_tt_live/node/encoder.py
@@ -45,4 +45,5 @@ class EBUTTDEncoder(AbstractCombinedNode):
             # Hard coded to 'media' because that's all that's permitted in EBU-TT-D. Alternative
             # would be to extract it from the EBUTTDDocument but since it's the only permitted
             # value that would be an unnecessary overhead...
-            self.producer_carriage.emit_data(data=converted_doc, sequence_identifier='default', time_base='media', **kwargs)
+            kwargs.update(sequence_identifier='default', time_base='media')
+            self.producer_carriage.emit_data(data=converted_doc, **kwargs)
-- 
2.43.0


From 05a26c19778dbb48057d5973c24e2ee2266ebea4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 43/71] fix: the EBU-TT-D encoder writes documents with the
 default namespace if configured

---
 ebu_tt_live/node/encoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/node/encoder.py b/ebu_tt_live/node/encoder.py
index 098e881..0d14c29 100644
--- a/ebu_tt_live/node/encoder.py
+++ b/ebu_tt_live/node/encoder.py
@@ -41,6 +41,7 @@ class EBUTTDEncoder(AbstractCombinedNode):
             converted_doc = EBUTTDDocument.create_from_raw_binding(
                 self._ebuttd_converter.convert_document(document.binding)
             )
+            converted_doc.set_implicit_ns(self._default_ns)
             # Specify the time_base since the FilesystemProducerImpl can't derive it otherwise.
             # Hard coded to 'media' because that's all that's permitted in EBU-TT-D. Alternative
             # would be to extract it from the EBUTTDDocument but since it's the only permitted
-- 
2.43.0


From 114334f098b02f064f7b807bf31817deb8af9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 44/71] fix: a server that refused a connection can also let go
 of it

---
 ebu_tt_live/twisted/websocket.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index 5a1e182..274c960 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -325,9 +325,10 @@ class BroadcastServerFactory(BroadcastFactoryCommon, WebSocketServerFactory):
                 self.consumer.register(client)
 
     def unregister(self, client):
-        if client.action == 'subscribe':
+        # The connection may have been refused because there is no producer or consumer for it
+        if client.action == 'subscribe' and self._producer is not None:
             self._producer.unregister(client)
-        if client.action == 'publish':
+        if client.action == 'publish' and self._consumer is not None:
             self._consumer.unregister(client)
 
     def stopFactory(self):
-- 
2.43.0


From 9970a222d8b7c92dab14237d30b5ac14070027df Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 45/71] fix: EBU-TT-D conversion replaces nested divs, which
 EBU-TT-D does not have

---
 .../bindings/converters/ebutt3_ebuttd.py      | 37 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index 5018374..d383c52 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -283,6 +283,8 @@ class EBUTT3EBUTTDConverter(object):
         if len(children) == 0:
             # EBU-TT-D has no empty divs
             return None
+        if self._children_contain(div_in, div_type):
+            return self._convert_nested_divs(div_in, children, dataset)
         new_elem = d_div_type(
             *children,
             id=div_in.id,
@@ -292,6 +294,37 @@ class EBUTT3EBUTTDConverter(object):
         )
         return new_elem
 
+    def _convert_nested_divs(self, div_in, children, dataset):
+        """
+        EBU-TT-D has no divs in divs so the nested ones take over what they inherit and replace their parent.
+        Paragraphs between them get a div of their own.
+        :return: list of EBU-TT-D divs
+        """
+        new_elems = []
+        style_ids = self._convert_style_references(div_in.style, dataset) or []
+        own_div = None
+        div_id = div_in.id
+        for child in children:
+            if isinstance(child, d_div_type):
+                own_div = None
+                own_ids = list(child.style or [])
+                child.style = own_ids + [style_id for style_id in style_ids if style_id not in own_ids] or None
+                child.region = div_in.region or child.region
+                child.agent = child.agent or div_in.agent
+                new_elems.append(child)
+            elif isinstance(child, d_p_type):
+                if own_div is None:
+                    own_div = d_div_type(
+                        id=div_id,
+                        region=div_in.region,
+                        style=style_ids or None,
+                        agent=div_in.agent
+                    )
+                    div_id = None
+                    new_elems.append(own_div)
+                own_div.append(child)
+        return new_elems
+
     def convert_p(self, p_in, dataset):
         new_elem = d_p_type(
             *self.convert_children(p_in, dataset),
@@ -370,7 +403,9 @@ class EBUTT3EBUTTDConverter(object):
             elif isinstance(item, ElementContent):
                 conv_elem = self.convert_element(item.value, dataset)
 
-                if conv_elem is not None:
+                if isinstance(conv_elem, list):
+                    output.extend(conv_elem)
+                elif conv_elem is not None:
                     if isinstance(item.value, StyledElementMixin) and not isinstance(item.value, style_type):
                         self._fix_fontsize(
                             elem=item.value,
-- 
2.43.0


From a2b5525595e6de53728d4f626d86c9ca4ef5be76 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 46/71] fix: a line height in pixels without the extent of the
 document is refused like other pixel lengths

---
 ebu_tt_live/bindings/_ebuttdt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index 624a75e..10a723d 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -699,10 +699,15 @@ class PercentageLineHeightType(TwoDimSizingMixin, ebuttdt_raw.percentageLineHeig
 ebuttdt_raw.percentageLineHeightType._SetSupersedingClass(PercentageLineHeightType)
 
 
-class PixelLineHeightType(TwoDimSizingMixin, ebuttdt_raw.pixelLineHeightType):
+class PixelLineHeightType(TwoDimSizingMixin, SizingValidationMixin, ebuttdt_raw.pixelLineHeightType):
 
     _groups_regex = re.compile('(?P<first>\d*\.?\d+)px')
     _1dim_format = '{}px'
 
+    def _semantic_validate_sizing_context(self, dataset):
+        extent = dataset['tt_element'].extent
+        if extent is None:
+            raise ExtentMissingError(self)
+
 
 ebuttdt_raw.pixelLineHeightType._SetSupersedingClass(PixelLineHeightType)
-- 
2.43.0


From 794ab02eff4e53e18a375ff0ad6844669514287f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 47/71] fix: a document with another root element is refused as
 a parsing error

---
 ebu_tt_live/documents/ebutt3.py | 8 ++++++--
 ebu_tt_live/documents/ebuttd.py | 4 ++++
 ebu_tt_live/strings.py          | 1 +
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 949677c..31d9092 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -5,12 +5,12 @@ from .ebutt3_splicer import EBUTT3Splicer
 from ebu_tt_live import bindings
 from ebu_tt_live.bindings import _ebuttm as metadata, TimingValidationMixin
 from ebu_tt_live.bindings import _ebuttlm as ebuttlm
-from ebu_tt_live.strings import ERR_DOCUMENT_SEQUENCE_MISMATCH, \
+from ebu_tt_live.strings import ERR_ROOT_ELEMENT_UNEXPECTED, ERR_DOCUMENT_SEQUENCE_MISMATCH, \
     ERR_DOCUMENT_NOT_COMPATIBLE, ERR_DOCUMENT_NOT_PART_OF_SEQUENCE, \
     ERR_DOCUMENT_SEQUENCE_INCONSISTENCY, DOC_DISCARDED, DOC_TRIMMED, DOC_REQ_SEGMENT, DOC_SEQ_REQ_SEGMENT, \
     DOC_INSERTED, DOC_SEMANTIC_VALIDATION_SUCCESSFUL, ERR_SEQUENCE_FROM_DOCUMENT, \
     ERR_DOCUMENT_SEQUENCENUMBER_COLLISION, ERR_AUTHORS_GROUP_MISMATCH, ERR_MESSAGE_TYPE_UNKNOWN
-from ebu_tt_live.errors import IncompatibleSequenceError, DocumentDiscardedError, \
+from ebu_tt_live.errors import XMLParsingFailed, IncompatibleSequenceError, DocumentDiscardedError, \
     SequenceOverridden, SequenceNumberCollisionError, UnexpectedAuthorsGroupError, SemanticValidationError
 from ebu_tt_live.clocks import get_clock_from_document
 from datetime import timedelta
@@ -180,6 +180,8 @@ class EBUTT3ObjectBase(object):
         :param binding: message binding
         :return: a message
         """
+        if not isinstance(binding, ebuttlm.message_type):
+            raise XMLParsingFailed(ERR_ROOT_ELEMENT_UNEXPECTED.format(expected='live message'))
         message_class = cls.message_type_mapping.get(binding.header.type)
         if message_class is None:
             raise SemanticValidationError(ERR_MESSAGE_TYPE_UNKNOWN.format(message_type=binding.header.type))
@@ -330,6 +332,8 @@ class EBUTT3Document(TimelineUtilMixin, SubtitleDocument, EBUTT3ObjectBase):
 
     @classmethod
     def create_from_raw_binding(cls, binding, availability_time=None):
+        if not isinstance(binding, bindings.tt_type):
+            raise XMLParsingFailed(ERR_ROOT_ELEMENT_UNEXPECTED.format(expected='live document'))
         instance = cls.__new__(cls)
         instance._ebutt3_content = binding
         if availability_time is not None:
diff --git a/ebu_tt_live/documents/ebuttd.py b/ebu_tt_live/documents/ebuttd.py
index b2b32ad..b986f3c 100644
--- a/ebu_tt_live/documents/ebuttd.py
+++ b/ebu_tt_live/documents/ebuttd.py
@@ -3,6 +3,8 @@ import six
 from xml.dom import minidom
 from .base import SubtitleDocument, TimeBase
 from ebu_tt_live import bindings
+from ebu_tt_live.errors import XMLParsingFailed
+from ebu_tt_live.strings import ERR_ROOT_ELEMENT_UNEXPECTED
 from ebu_tt_live.bindings.converters.ebutt3_ebuttd import EBUTT3EBUTTDConverter
 
 
@@ -53,6 +55,8 @@ class EBUTTDDocument(SubtitleDocument):
 
     @classmethod
     def create_from_raw_binding(cls, binding):
+        if not isinstance(binding, bindings.d_tt_type):
+            raise XMLParsingFailed(ERR_ROOT_ELEMENT_UNEXPECTED.format(expected='EBU-TT-D document'))
         instance = cls.__new__(cls)
         instance._ebuttd_content = binding
         return instance
diff --git a/ebu_tt_live/strings.py b/ebu_tt_live/strings.py
index 0a31e65..456fa6a 100644
--- a/ebu_tt_live/strings.py
+++ b/ebu_tt_live/strings.py
@@ -23,6 +23,7 @@ ERR_SEMANTIC_VALIDATION_EXPECTED = gettext('Please run semantic validation befor
 ERR_SEMANTIC_ELEMENT_BY_ID_MISSING = gettext('Element with XML ID {id} is not found')
 ERR_SEMANTIC_REGION_MISSING = gettext('Region: {region} is not found.')
 ERR_SEMANTIC_ID_UNIQUENESS = gettext('XML ID is not unique: {id}')
+ERR_ROOT_ELEMENT_UNEXPECTED = gettext('The root element is not the one of a {expected}')
 ERR_MESSAGE_TYPE_UNKNOWN = gettext('Message type: {message_type} is not known')
 ERR_DOCUMENT_NOT_COMPATIBLE = gettext('Document is not compatible with the sequence. Conflicting attributes: {attr_names}')
 ERR_DOCUMENT_NOT_PART_OF_SEQUENCE = gettext('Document is not part of any sequence')
-- 
2.43.0


From 582506ed096c222cdef053f7ba24642ead6f9d03 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 48/71] fix: a document with times out of range is refused as
 such

---
 ebu_tt_live/documents/ebutt3.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 31d9092..56932d3 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -9,9 +9,11 @@ from ebu_tt_live.strings import ERR_ROOT_ELEMENT_UNEXPECTED, ERR_DOCUMENT_SEQUEN
     ERR_DOCUMENT_NOT_COMPATIBLE, ERR_DOCUMENT_NOT_PART_OF_SEQUENCE, \
     ERR_DOCUMENT_SEQUENCE_INCONSISTENCY, DOC_DISCARDED, DOC_TRIMMED, DOC_REQ_SEGMENT, DOC_SEQ_REQ_SEGMENT, \
     DOC_INSERTED, DOC_SEMANTIC_VALIDATION_SUCCESSFUL, ERR_SEQUENCE_FROM_DOCUMENT, \
-    ERR_DOCUMENT_SEQUENCENUMBER_COLLISION, ERR_AUTHORS_GROUP_MISMATCH, ERR_MESSAGE_TYPE_UNKNOWN
+    ERR_DOCUMENT_SEQUENCENUMBER_COLLISION, ERR_AUTHORS_GROUP_MISMATCH, ERR_MESSAGE_TYPE_UNKNOWN, \
+    ERR_TIME_FORMAT_OVERFLOW
 from ebu_tt_live.errors import XMLParsingFailed, IncompatibleSequenceError, DocumentDiscardedError, \
-    SequenceOverridden, SequenceNumberCollisionError, UnexpectedAuthorsGroupError, SemanticValidationError
+    SequenceOverridden, SequenceNumberCollisionError, UnexpectedAuthorsGroupError, SemanticValidationError, \
+    TimeFormatOverflowError
 from ebu_tt_live.clocks import get_clock_from_document
 from datetime import timedelta
 from pyxb import BIND
@@ -517,10 +519,13 @@ class EBUTT3Document(TimelineUtilMixin, SubtitleDocument, EBUTT3ObjectBase):
         # This is assuming availability from the beginning of our time coordinate system.
         availability_time = self.availability_time or timedelta()
         # Run validation
-        result = self._ebutt3_content.validateBinding(
-            availability_time=availability_time,
-            document=self
-        )
+        try:
+            result = self._ebutt3_content.validateBinding(
+                availability_time=availability_time,
+                document=self
+            )
+        except OverflowError:
+            raise TimeFormatOverflowError(ERR_TIME_FORMAT_OVERFLOW)
 
         document_logger.debug(
             DOC_SEMANTIC_VALIDATION_SUCCESSFUL.format(
-- 
2.43.0


From 891582e970243c4f5994126fb999f4402a7d4e76 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 49/71] fix: text arriving over websocket reaches the nodes as
 text, and errors are reported in any language

---
 ebu_tt_live/twisted/websocket.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index 274c960..682face 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -23,9 +23,9 @@ class UserInputServerProtocol(WebSocketServerProtocol):
 
     def onMessage(self, payload, isBinary):
         try:
-            self.factory.write(payload)
+            self.factory.write(payload.decode("utf-8"))
         except Exception as e:
-            self.sendMessage("ERROR: " + str(e))
+            self.sendMessage((u"ERROR: " + six.text_type(e)).encode("utf-8"))
             return
         self.sendMessage('SUCCESS')
 
@@ -234,7 +234,7 @@ class BroadcastServerProtocol(EBUWebsocketProtocolMixin, WebSocketServerProtocol
     def onMessage(self, payload, isBinary):
         if self.action == 'publish':
             try:
-                self._write_to_consumer(payload, sequence_identifier=self._sequence_identifier)
+                self._write_to_consumer(payload.decode("utf-8"), sequence_identifier=self._sequence_identifier)
             except UnexpectedSequenceIdentifierError:
                 self.dropConnection(abort=False)
         else:
@@ -360,7 +360,7 @@ class BroadcastClientProtocol(EBUWebsocketProtocolMixin, WebSocketClientProtocol
     def onMessage(self, payload, isBinary):
         if self.action == 'subscribe':
             try:
-                self._write_to_consumer(payload, sequence_identifier=self._sequence_identifier)
+                self._write_to_consumer(payload.decode("utf-8"), sequence_identifier=self._sequence_identifier)
             except UnexpectedSequenceIdentifierError:
                 self.dropConnection(abort=False)
         else:
-- 
2.43.0


From 02825850a949ede6e2af1afac014a9cdfa37aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 50/71] fix: a publishing client closes the connection on which
 data arrives, as the server does

---
 ebu_tt_live/twisted/websocket.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index 682face..7795f1b 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -365,6 +365,7 @@ class BroadcastClientProtocol(EBUWebsocketProtocolMixin, WebSocketClientProtocol
                 self.dropConnection(abort=False)
         else:
             log.error(ERR_WS_RECEIVE_VIA_PRODUCER)
+            self.dropConnection(abort=True)
 
     def sendSequenceMessage(
             self, sequence_identifier, payload, isBinary=False, fragmentSize=None, sync=False, doNotCompress=False
-- 
2.43.0


From 396d22b3d762d54e1b133347cf8dab11df56d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 51/71] fix: nodes of a configuration are looked up by their
 name, also when some numbers are not used

---
 ebu_tt_live/config/__init__.py |  4 +---
 ebu_tt_live/config/node.py     | 18 +++++++-----------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/ebu_tt_live/config/__init__.py b/ebu_tt_live/config/__init__.py
index f5aebd6..d083138 100644
--- a/ebu_tt_live/config/__init__.py
+++ b/ebu_tt_live/config/__init__.py
@@ -66,9 +66,7 @@ class AppConfig(RequiredConfig):
         current_app = self
 
     def get_node(self, node_id):
-        # TODO: This is horrible. Replace it with a dictionary
-        node_num = int(node_id.replace('node', ''))
-        return self._nodes._nodes[node_num - 1]
+        return self._nodes.get_node(node_id)
 
     def start(self):
 
diff --git a/ebu_tt_live/config/node.py b/ebu_tt_live/config/node.py
index ff335c2..f6ce21d 100644
--- a/ebu_tt_live/config/node.py
+++ b/ebu_tt_live/config/node.py
@@ -382,21 +382,17 @@ class UniversalNodeList(ConfigurableComponent):
     def configure_component(cls, config, local_config, **kwargs):
         instance = cls(config=config, local_config=local_config)
 
-        instance._nodes = []
-        for item in [
-            instance.config.node1,
-            instance.config.node2,
-            instance.config.node3,
-            instance.config.node4,
-            instance.config.node5,
-            instance.config.node6,
-            instance.config.node7
-        ]:
+        instance._nodes = {}
+        for node_id in ['node1', 'node2', 'node3', 'node4', 'node5', 'node6', 'node7']:
+            item = instance.config[node_id]
             if item.type is not None:
-                instance._nodes.append(item.type.configure_component(config, item))
+                instance._nodes[node_id] = item.type.configure_component(config, item)
 
         return instance
 
+    def get_node(self, node_id):
+        return self._nodes[node_id]
+
 
 class UniversalNodes(RequiredConfig):
     required_config = Namespace()
-- 
2.43.0


From c3404882a81c4d98282a840124b434a3d9bf47fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 52/71] fix: node8 and node9 of a configuration are created, as
 documented

---
 ebu_tt_live/config/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/config/node.py b/ebu_tt_live/config/node.py
index f6ce21d..47b5a19 100644
--- a/ebu_tt_live/config/node.py
+++ b/ebu_tt_live/config/node.py
@@ -375,6 +375,8 @@ class UniversalNodeList(ConfigurableComponent):
     required_config.node5 = node5 = UniversalNode.get_required_config()
     required_config.node6 = node6 = UniversalNode.get_required_config()
     required_config.node7 = node7 = UniversalNode.get_required_config()
+    required_config.node8 = node8 = UniversalNode.get_required_config()
+    required_config.node9 = node9 = UniversalNode.get_required_config()
 
     _nodes = None
 
@@ -383,7 +385,7 @@ class UniversalNodeList(ConfigurableComponent):
         instance = cls(config=config, local_config=local_config)
 
         instance._nodes = {}
-        for node_id in ['node1', 'node2', 'node3', 'node4', 'node5', 'node6', 'node7']:
+        for node_id in ['node1', 'node2', 'node3', 'node4', 'node5', 'node6', 'node7', 'node8', 'node9']:
             item = instance.config[node_id]
             if item.type is not None:
                 instance._nodes[node_id] = item.type.configure_component(config, item)
-- 
2.43.0


From 531d263c7abbd95ece0d8132e9ba8e0bd657ddec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 53/71] fix: an unknown backend type is a configuration error

---
 ebu_tt_live/config/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/config/backend.py b/ebu_tt_live/config/backend.py
index 465c459..c0f5923 100644
--- a/ebu_tt_live/config/backend.py
+++ b/ebu_tt_live/config/backend.py
@@ -276,7 +276,7 @@ backend_by_type = {
 
 def get_backend(backend_name):
     try:
-        return backend_by_type.get(backend_name)
+        return backend_by_type[backend_name]
     except KeyError:
         raise ConfigurationError(
             ERR_NO_SUCH_COMPONENT.format(
-- 
2.43.0


From b2df690b6800a07de64aa23f149076a5803df195 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 54/71] fix: an unknown adapter type is a configuration error

---
 ebu_tt_live/config/adapters.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/config/adapters.py b/ebu_tt_live/config/adapters.py
index 0ededb1..dad3ffa 100644
--- a/ebu_tt_live/config/adapters.py
+++ b/ebu_tt_live/config/adapters.py
@@ -1,6 +1,8 @@
 
 from .common import ConfigurableComponent
 from ebu_tt_live.adapters import document_data, node_carriage
+from ebu_tt_live.errors import ConfigurationError
+from ebu_tt_live.strings import ERR_NO_SUCH_COMPONENT
 
 
 data_adapters_by_directed_conversion = {
@@ -18,7 +20,13 @@ def parse_adapter_list(value):
         for item in value:
             conv_type = item['type']
             kwargs = {ckey: carg for ckey, carg in item.items() if ckey != 'type'}
-            parsed_value.append(data_adapters_by_directed_conversion.get(conv_type)(**kwargs))
+            if conv_type not in data_adapters_by_directed_conversion:
+                raise ConfigurationError(
+                    ERR_NO_SUCH_COMPONENT.format(
+                        type_name=conv_type
+                    )
+                )
+            parsed_value.append(data_adapters_by_directed_conversion[conv_type](**kwargs))
     return parsed_value or None
 
 
-- 
2.43.0


From 5001be66788b3261a86ce4dd1e6002f82362ea21 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 55/71] fix: connections of another form than documented are a
 configuration error

---
 ebu_tt_live/config/carriage.py | 31 ++++++++++++++++++++++++++-----
 ebu_tt_live/strings.py         |  1 +
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/ebu_tt_live/config/carriage.py b/ebu_tt_live/config/carriage.py
index a4c92af..dee9979 100644
--- a/ebu_tt_live/config/carriage.py
+++ b/ebu_tt_live/config/carriage.py
@@ -2,7 +2,7 @@ from .common import ConfigurableComponent, Namespace
 from ebu_tt_live.carriage.direct import DirectCarriageImpl
 from ebu_tt_live.carriage.websocket import WebsocketProducerCarriage, WebsocketConsumerCarriage
 from ebu_tt_live.carriage import filesystem
-from ebu_tt_live.strings import ERR_CONF_PROXY_CONF_VALUE, ERR_NO_SUCH_COMPONENT
+from ebu_tt_live.strings import ERR_CONF_PROXY_CONF_VALUE, ERR_CONF_WS_CONNECT_VALUE, ERR_NO_SUCH_COMPONENT
 from ebu_tt_live.errors import ConfigurationError
 from ebu_tt_live.strings import CFG_FILENAME_PATTERN, CFG_MESSAGE_PATTERN
 import urlparse
@@ -118,11 +118,32 @@ def str_to_url_converter(value):
     return parsed
 
 
-def parse_url_list(value):
+connect_path_regex = re.compile(r'^/[^/]+/(?P<action>[^/]+)$')
+
+
+def str_to_connect_url_converter(value, action):
+    parsed = str_to_url_converter(value)
+    path = connect_path_regex.match(parsed.path)
+    try:
+        valid_port = parsed.port is None or 0 < parsed.port < 65536
+    except ValueError:
+        valid_port = False
+    if parsed.scheme not in ('ws', 'wss') or not parsed.hostname or not valid_port \
+            or path is None or path.group('action') != action:
+        raise ConfigurationError(
+            ERR_CONF_WS_CONNECT_VALUE.format(
+                value=value,
+                action=action
+            )
+        )
+    return parsed
+
+
+def parse_url_list(value, action):
     parsed_value = []
     if value is not None:
         for item in value:
-            parsed_value.append(str_to_url_converter(item))
+            parsed_value.append(str_to_connect_url_converter(item, action))
     return parsed_value
 
 proxy_regex = re.compile(r'^((?P<protocol>.+?)://)?(?P<host>[^:]+?):(?P<port>[0-9]+)$')
@@ -209,7 +230,7 @@ class WebsocketOutput(WebsocketBase):
     def __init__(self, config, local_config):
         super(WebsocketOutput, self).__init__(config, local_config)
         # from_string_converter does not work for lists in configman :( Doing it manually here
-        self.config.connect = parse_url_list(self.config.connect)
+        self.config.connect = parse_url_list(self.config.connect, 'publish')
         self.component = WebsocketProducerCarriage()
         self.backend.register_component_start(self)
 
@@ -230,7 +251,7 @@ class WebsocketInput(WebsocketBase):
     def __init__(self, config, local_config):
         super(WebsocketInput, self).__init__(config, local_config)
         # from_string_converter does not work for lists in configman :( Doing it manually here
-        self.config.connect = parse_url_list(self.config.connect)
+        self.config.connect = parse_url_list(self.config.connect, 'subscribe')
         self.component = WebsocketConsumerCarriage()
         self.backend.register_component_start(self)
 
diff --git a/ebu_tt_live/strings.py b/ebu_tt_live/strings.py
index 456fa6a..ba9cc49 100644
--- a/ebu_tt_live/strings.py
+++ b/ebu_tt_live/strings.py
@@ -44,6 +44,7 @@ ERR_WS_RECEIVE_VIA_PRODUCER = gettext('Producer socket cannot be used to receive
 ERR_CONF_ONE_BACKEND_ONLY = gettext('There is only one backend allowed. Already created: {backend1}, New: {backend2}')
 ERR_CONF_NO_SUCH_NODE = gettext('No such node type found: {node_type}')
 ERR_CONF_PROXY_CONF_VALUE = gettext('Failed to parse proxy config: {value}')
+ERR_CONF_WS_CONNECT_VALUE = gettext('Connection {value} is not of the form ws://<host>:<port>/<sequenceIdentifier>/{action}')
 ERR_CONF_WS_SERVER_PROTOCOL_MISMATCH = gettext('The address: {address} is in use by another server with different protocol version')
 
 DOC_SYNTACTIC_VALIDATION_SUCCESSFUL = gettext('Syntactic validation successful')
-- 
2.43.0


From 5b42536ecc92d79978a7ec7a586259d052509693 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 56/71] fix: tail given as a string is converted like the other
 options (the text 'false' switched it on)

---
 ebu_tt_live/config/carriage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/config/carriage.py b/ebu_tt_live/config/carriage.py
index dee9979..bdf603d 100644
--- a/ebu_tt_live/config/carriage.py
+++ b/ebu_tt_live/config/carriage.py
@@ -93,6 +93,7 @@ class FilesystemInput(ConfigurableComponent):
     required_config.add_option('manifest_file', doc='The timing manifest file for importing files')
     required_config.add_option(
         'tail',
+        default=False,
         doc='Keep the manifest open and wait for new input much like UNIX\'s tail -f command'
     )
     _fs_reader = None
-- 
2.43.0


From 428e093bc972ef69a1edbe46d15af71585b21cae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 57/71] fix: a websocket-legacy output can be created and sends
 its documents

---
 ebu_tt_live/config/backend.py    | 9 ++++-----
 ebu_tt_live/twisted/websocket.py | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/ebu_tt_live/config/backend.py b/ebu_tt_live/config/backend.py
index c0f5923..8e766df 100644
--- a/ebu_tt_live/config/backend.py
+++ b/ebu_tt_live/config/backend.py
@@ -222,18 +222,17 @@ class TwistedBackend(BackendBase):
     def wsl_backend_producer(self, uri, custom_producer):
         server_factory = self._crosscheck_ws_server_uri(listen=uri.geturl(), legacy=True)
         if not server_factory:
-            twisted_producer = self._wsl_twisted_producer_type(
-                custom_producer=custom_producer
-            )
             server_factory = self._websocket.LegacyBroadcastServerFactory(
                 uri.geturl()
             )
             server_factory.protocol = self._websocket.LegacyBroadcastServerProtocol
-            server_factory.registerProducer(twisted_producer, streaming=True)
             self._wsl_twisted_servers[uri.geturl()] = server_factory
             server_factory.listen()
 
-        return server_factory.producer
+        return self._wsl_twisted_producer_type(
+            consumer=server_factory,
+            custom_producer=custom_producer
+        )
 
     def wsl_backend_consumer(self, uri, custom_consumer, proxy=None):
         factory_args = {}
diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index 7795f1b..fe26bae 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -432,7 +432,7 @@ class TwistedPullProducer(object):
         self._custom_producer = custom_producer
         self._consumer = consumer
         self._consumer.registerProducer(self, False)
-        self._custom_producer.register_twisted_producer(self)
+        self._custom_producer.register_backend_producer(self)
 
     def emit_data(self, channel, data, delay=None):
         if delay is not None:
-- 
2.43.0


From 7e5b9f92075c572505376e91e453cf27aea57d37 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 58/71] fix: the proxy of a websocket-legacy input is used

---
 ebu_tt_live/config/backend.py  | 8 ++------
 ebu_tt_live/config/carriage.py | 6 +++++-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ebu_tt_live/config/backend.py b/ebu_tt_live/config/backend.py
index 8e766df..1a096f6 100644
--- a/ebu_tt_live/config/backend.py
+++ b/ebu_tt_live/config/backend.py
@@ -235,19 +235,15 @@ class TwistedBackend(BackendBase):
         )
 
     def wsl_backend_consumer(self, uri, custom_consumer, proxy=None):
-        factory_args = {}
-        if proxy:
-            proxyHost, proxyPort = proxy.split(':')
-            factory_args['proxy'] = {'host': proxyHost, 'port': int(proxyPort)}
         factory = self._websocket.LegacyBroadcastClientFactory(
             url=uri.geturl(),
             consumer=self._wsl_twisted_consumer_type(
                 custom_consumer=custom_consumer
-            ),
-            **factory_args
+            )
         )
 
         factory.protocol = self._websocket.LegacyBroadcastClientProtocol
+        factory.proxy = proxy
 
         factory.connect()
 
diff --git a/ebu_tt_live/config/carriage.py b/ebu_tt_live/config/carriage.py
index bdf603d..2e0ba9a 100644
--- a/ebu_tt_live/config/carriage.py
+++ b/ebu_tt_live/config/carriage.py
@@ -202,7 +202,11 @@ class WebsocketLegacyInput(WebsocketLegacyBase):
         self.backend.register_component_start(self)
 
     def start(self):
-        self._backend_consumer = self.backend.wsl_backend_consumer(uri=self.config.uri, custom_consumer=self.component)
+        self._backend_consumer = self.backend.wsl_backend_consumer(
+            uri=self.config.uri,
+            custom_consumer=self.component,
+            proxy=self.config.proxy
+        )
 
 
 class WebsocketBase(ConfigurableComponent):
-- 
2.43.0


From 56bdd7b7f46361f726e3c71b8f32137a955db25d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 59/71] fix: a websocket-legacy input hands over text, not
 bytes

---
 ebu_tt_live/twisted/websocket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index fe26bae..40d44af 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -574,7 +574,7 @@ class LegacyBroadcastClientProtocol(WebSocketClientProtocol):
         self.sendMessage(json.dumps(data))
 
     def onMessage(self, payload, isBinary):
-        self.factory.dataReceived(payload)
+        self.factory.dataReceived(payload.decode('utf-8'))
 
 
 @implementer(interfaces.IPushProducer)
-- 
2.43.0


From 30b8ebf8cbfd3ce102e8953f4c1b558813d58250 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 60/71] fix: data handed over directly with a delay waits for
 it

---
 ebu_tt_live/carriage/direct.py | 12 ++++++++++--
 ebu_tt_live/config/carriage.py |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/carriage/direct.py b/ebu_tt_live/carriage/direct.py
index 01db2d8..e28c494 100644
--- a/ebu_tt_live/carriage/direct.py
+++ b/ebu_tt_live/carriage/direct.py
@@ -6,6 +6,11 @@ class DirectCarriageImpl(AbstractCombinedCarriage):
 
     _expects = ANY
     _provides = ANY
+    _call_later = None
+
+    def __init__(self, call_later=None):
+        # Function that makes a call after a delay in seconds: it is needed for data that is emitted with a delay.
+        self._call_later = call_later
 
     def on_new_data(self, data, **kwargs):
         self.producer_node.emit_data(data, **kwargs)
@@ -13,5 +18,8 @@ class DirectCarriageImpl(AbstractCombinedCarriage):
     def resume_producing(self):
         self.producer_node.resume_producing()
 
-    def emit_data(self, data, **kwargs):
-        self.consumer_node.process_document(data, **kwargs)
+    def emit_data(self, data, delay=None, **kwargs):
+        if delay is not None and self._call_later is not None:
+            self._call_later(lambda: self.consumer_node.process_document(data, **kwargs), delay=delay)
+        else:
+            self.consumer_node.process_document(data, **kwargs)
diff --git a/ebu_tt_live/config/carriage.py b/ebu_tt_live/config/carriage.py
index 2e0ba9a..94afacd 100644
--- a/ebu_tt_live/config/carriage.py
+++ b/ebu_tt_live/config/carriage.py
@@ -30,7 +30,7 @@ class DirectCommon(ConfigurableComponent):
         component = cls._components.get(local_config.id, None)
 
         if component is None:
-            instance.component = DirectCarriageImpl()
+            instance.component = DirectCarriageImpl(call_later=instance.backend.call_once)
             cls._components[local_config.id] = instance.component
         else:
             instance.component = component
-- 
2.43.0


From e9c8f9b562c3cb968a8a7d0511700ce816c88a18 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 61/71] fix: a second producer or consumer on a listening
 address is a configuration error

---
 ebu_tt_live/config/backend.py | 31 +++++++++++++++++++++----------
 ebu_tt_live/strings.py        |  1 +
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/ebu_tt_live/config/backend.py b/ebu_tt_live/config/backend.py
index 1a096f6..6f99285 100644
--- a/ebu_tt_live/config/backend.py
+++ b/ebu_tt_live/config/backend.py
@@ -1,6 +1,6 @@
 import logging
 from .common import ConfigurableComponent, Namespace, RequiredConfig
-from ebu_tt_live.strings import ERR_CONF_WS_SERVER_PROTOCOL_MISMATCH
+from ebu_tt_live.strings import ERR_CONF_WS_SERVER_IN_USE, ERR_CONF_WS_SERVER_PROTOCOL_MISMATCH
 from ebu_tt_live.errors import ConfigurationError
 from ebu_tt_live.strings import ERR_NO_SUCH_COMPONENT
 
@@ -168,12 +168,18 @@ class TwistedBackend(BackendBase):
         :return: The Twisted Producer instance with server socket and/or client connections
         """
         server_factory = listen and self._crosscheck_ws_server_uri(listen.geturl()) or None
-        twisted_producer = server_factory and server_factory.producer or None
-        if not twisted_producer:
-            twisted_producer = self._ws_twisted_producer_type(
-                custom_producer=custom_producer
+        if server_factory and server_factory.producer:
+            raise ConfigurationError(
+                ERR_CONF_WS_SERVER_IN_USE.format(
+                    address=listen.geturl(),
+                    role='producer'
+                )
             )
 
+        twisted_producer = self._ws_twisted_producer_type(
+            custom_producer=custom_producer
+        )
+
         if listen:
             if server_factory:
                 server_factory.producer = twisted_producer
@@ -194,13 +200,18 @@ class TwistedBackend(BackendBase):
 
     def ws_backend_consumer(self, custom_consumer, listen=None, connect=None, proxy=None):
         server_factory = listen and self._crosscheck_ws_server_uri(listen.geturl()) or None
-        twisted_consumer = server_factory and server_factory.consumer or None
-
-        if not twisted_consumer:
-            twisted_consumer = self._ws_twisted_consumer_type(
-                custom_consumer=custom_consumer
+        if server_factory and server_factory.consumer:
+            raise ConfigurationError(
+                ERR_CONF_WS_SERVER_IN_USE.format(
+                    address=listen.geturl(),
+                    role='consumer'
+                )
             )
 
+        twisted_consumer = self._ws_twisted_consumer_type(
+            custom_consumer=custom_consumer
+        )
+
         if listen:
             if server_factory:
                 server_factory.consumer = twisted_consumer
diff --git a/ebu_tt_live/strings.py b/ebu_tt_live/strings.py
index ba9cc49..fcbb311 100644
--- a/ebu_tt_live/strings.py
+++ b/ebu_tt_live/strings.py
@@ -45,6 +45,7 @@ ERR_CONF_ONE_BACKEND_ONLY = gettext('There is only one backend allowed. Already
 ERR_CONF_NO_SUCH_NODE = gettext('No such node type found: {node_type}')
 ERR_CONF_PROXY_CONF_VALUE = gettext('Failed to parse proxy config: {value}')
 ERR_CONF_WS_CONNECT_VALUE = gettext('Connection {value} is not of the form ws://<host>:<port>/<sequenceIdentifier>/{action}')
+ERR_CONF_WS_SERVER_IN_USE = gettext('The address: {address} is in use by another {role}')
 ERR_CONF_WS_SERVER_PROTOCOL_MISMATCH = gettext('The address: {address} is in use by another server with different protocol version')
 
 DOC_SYNTACTIC_VALIDATION_SUCCESSFUL = gettext('Syntactic validation successful')
-- 
2.43.0


From e1edc07a2db5ff368a8aaa61d6984a77aff4d818 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 62/71] fix: a connection to a port out of range is a
 configuration error

---
 ebu_tt_live/config/carriage.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ebu_tt_live/config/carriage.py b/ebu_tt_live/config/carriage.py
index 94afacd..448bfbe 100644
--- a/ebu_tt_live/config/carriage.py
+++ b/ebu_tt_live/config/carriage.py
@@ -119,17 +119,15 @@ def str_to_url_converter(value):
     return parsed
 
 
+connect_address_regex = re.compile(r'^(?:[^:@\[\]]+|\[[^\]]+\])(?::(?P<port>[0-9]+))?$')
 connect_path_regex = re.compile(r'^/[^/]+/(?P<action>[^/]+)$')
 
 
 def str_to_connect_url_converter(value, action):
     parsed = str_to_url_converter(value)
     path = connect_path_regex.match(parsed.path)
-    try:
-        valid_port = parsed.port is None or 0 < parsed.port < 65536
-    except ValueError:
-        valid_port = False
-    if parsed.scheme not in ('ws', 'wss') or not parsed.hostname or not valid_port \
+    address = connect_address_regex.match(parsed.netloc)
+    if parsed.scheme not in ('ws', 'wss') or address is None or not 0 < int(address.group('port') or 80) < 65536 \
             or path is None or path.group('action') != action:
         raise ConfigurationError(
             ERR_CONF_WS_CONNECT_VALUE.format(
-- 
2.43.0


From 4b279f64fe80b0c2882ab445f365abe1681e922b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 63/71] fix: timing values can be created in a thread that has
 not parsed a document yet

---
 ebu_tt_live/bindings/pyxb_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/bindings/pyxb_utils.py b/ebu_tt_live/bindings/pyxb_utils.py
index ffc27fc..b8d08e0 100644
--- a/ebu_tt_live/bindings/pyxb_utils.py
+++ b/ebu_tt_live/bindings/pyxb_utils.py
@@ -11,8 +11,14 @@ from pyxb.exceptions_ import NotComplexContentError
 
 log = logging.getLogger(__name__)
 
-__xml_parsing_context = threading.local()
-__xml_parsing_context.parsing = False
+
+class _XMLParsingContextStore(threading.local):
+    # Every thread starts out of parsing mode
+    parsing = False
+    context = None
+
+
+__xml_parsing_context = _XMLParsingContextStore()
 
 
 def get_xml_parsing_context():
-- 
2.43.0


From fb15023ae14c98ce89e2cfdae71dc93d048ae07e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:15:17 +0000
Subject: [PATCH 64/71] fix: verbose sequences can log documents with metadata
 in their content

---
 ebu_tt_live/bindings/validation/content.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/validation/content.py b/ebu_tt_live/bindings/validation/content.py
index 8ab3a55..18924c8 100644
--- a/ebu_tt_live/bindings/validation/content.py
+++ b/ebu_tt_live/bindings/validation/content.py
@@ -76,7 +76,8 @@ class SubtitleContentContainer(
         for item in self.orderedContent():
             if isinstance(item, NonElementContent):
                 str_lines.append(u'{}'.format(item.value))
-            else:
+            elif hasattr(item.value, 'content_to_string'):
+                # Metadata is not part of the subtitle content
                 str_lines.append(item.value.content_to_string(begin=begin, end=end))
 
         return u'\n'.join(str_lines)
-- 
2.43.0


From 93039409f0279a1705071c240a7f60218e8b7707 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:15:17 +0000
Subject: [PATCH 65/71] fix: nodes that need a clock or a clock time refuse
 configurations without one

---
 ebu_tt_live/config/node.py | 25 +++++++++++++++++++------
 ebu_tt_live/strings.py     |  2 ++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/ebu_tt_live/config/node.py b/ebu_tt_live/config/node.py
index 47b5a19..6a57bb3 100644
--- a/ebu_tt_live/config/node.py
+++ b/ebu_tt_live/config/node.py
@@ -7,15 +7,27 @@ from ebu_tt_live.examples import get_example_data
 import ebu_tt_live.node as processing_node
 from itertools import cycle
 from ebu_tt_live.utils import tokenize_english_document
-from ebu_tt_live.errors import ConfigurationError
-from ebu_tt_live.strings import ERR_CONF_NO_SUCH_NODE
+from ebu_tt_live.errors import ConfigurationError, TimeFormatError
+from ebu_tt_live.strings import ERR_CONF_NO_SUCH_NODE, ERR_CONF_CLOCK_NEEDED, ERR_CONF_CLOCK_TIME
 from .adapters import ProducerNodeCarriageAdapter, ConsumerNodeCarriageAdapter
+from pyxb import SimpleTypeValueError
 
 
 class NodeBase(ConfigurableComponent):
     required_config = Namespace()
     required_config.add_option('id', default='generic_node')
 
+    def _check_clock(self):
+        # There is no document yet that a clock could be created from
+        if self._clock.component is None:
+            raise ConfigurationError(ERR_CONF_CLOCK_NEEDED.format(node_id=self.config.id))
+
+    def _parse_clock_time(self, value):
+        try:
+            return bindings.ebuttdt.LimitedClockTimingType(str(value)).timedelta
+        except (SimpleTypeValueError, TimeFormatError, ValueError):
+            raise ConfigurationError(ERR_CONF_CLOCK_TIME.format(value=value, node_id=self.config.id))
+
 
 class ProducerMixin(RequiredConfig):
 
@@ -116,14 +128,13 @@ class ReSequencer(ProducerMixin, ConsumerMixin, NodeBase):
 
     def _create_component(self, config=None):
         self._clock = self.config.clock.type(config, self.config.clock)
+        self._check_clock()
 
         begin_output = self.config.begin_output
         if begin_output == 'immediate':
             self._begin_delay = 0
         else:
-            self._begin_delay = bindings.ebuttdt.LimitedClockTimingType(
-                begin_output
-            ).timedelta - self._clock.component.get_time()
+            self._begin_delay = self._parse_clock_time(begin_output) - self._clock.component.get_time()
             self._begin_delay = self._begin_delay.total_seconds()
 
         self.component = processing_node.ReSequencer(
@@ -209,6 +220,7 @@ class SimpleProducer(ProducerMixin, NodeBase):
 
     def _create_component(self, config=None):
         self._clock = self.config.clock.type(config, self.config.clock)
+        self._check_clock()
         sequence = documents.EBUTT3DocumentSequence(
             sequence_identifier=self.config.sequence_identifier,
             lang='en-GB',
@@ -262,9 +274,10 @@ class EBUTTDEncoder(ProducerMixin, ConsumerMixin, NodeBase):
     def _create_component(self, config):
         self._clock = self.config.clock.type(config, self.config.clock)
         if self.config.media_time_zero == 'current':
+            self._check_clock()
             mtz = self._clock.component.get_time()
         else:
-            mtz = bindings.ebuttdt.LimitedClockTimingType(str(self.config.media_time_zero)).timedelta
+            mtz = self._parse_clock_time(self.config.media_time_zero)
         self.component = processing_node.EBUTTDEncoder(
             node_id=self.config.id,
             media_time_zero=mtz,
diff --git a/ebu_tt_live/strings.py b/ebu_tt_live/strings.py
index fcbb311..60eadfa 100644
--- a/ebu_tt_live/strings.py
+++ b/ebu_tt_live/strings.py
@@ -45,6 +45,8 @@ ERR_CONF_ONE_BACKEND_ONLY = gettext('There is only one backend allowed. Already
 ERR_CONF_NO_SUCH_NODE = gettext('No such node type found: {node_type}')
 ERR_CONF_PROXY_CONF_VALUE = gettext('Failed to parse proxy config: {value}')
 ERR_CONF_WS_CONNECT_VALUE = gettext('Connection {value} is not of the form ws://<host>:<port>/<sequenceIdentifier>/{action}')
+ERR_CONF_CLOCK_NEEDED = gettext('Node {node_id} needs a clock of a given type')
+ERR_CONF_CLOCK_TIME = gettext('Time {value} of node {node_id} is not a clock time')
 ERR_CONF_WS_SERVER_IN_USE = gettext('The address: {address} is in use by another {role}')
 ERR_CONF_WS_SERVER_PROTOCOL_MISMATCH = gettext('The address: {address} is in use by another server with different protocol version')
 
-- 
2.43.0


From 7fbe2de69be6bf38f313e743307f41cc918e3d89 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:15:29 +0000
Subject: [PATCH 66/71] fix: the Schedule button of the user input producer
 schedules the document

---
 ebu_tt_live/ui/user_input_producer/uip.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index 13a7659..dc1a721 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -627,6 +627,7 @@ $(document).ready(function() {
     }
 
     $("#submit-subtitle-button").click(sendDocument);
+    $("#schedule-subtitle-button").click(sendDocument);
 
 
     // keyboard shortcut: Enter, space and escape send a document, escape also clears the text box.
-- 
2.43.0


From a26bb6a1fffbb9974468137f9de6f282fc717d8b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:15:29 +0000
Subject: [PATCH 67/71] fix: texts and names with markup characters are escaped
 by the user input producer

---
 .../template/live_message_template.xml               |  8 ++++----
 .../template/user_input_producer_template.xml        | 12 ++++++------
 ebu_tt_live/ui/user_input_producer/uip.js            |  2 +-
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/ebu_tt_live/ui/user_input_producer/template/live_message_template.xml b/ebu_tt_live/ui/user_input_producer/template/live_message_template.xml
index 186ba2d..ec67e05 100644
--- a/ebu_tt_live/ui/user_input_producer/template/live_message_template.xml
+++ b/ebu_tt_live/ui/user_input_producer/template/live_message_template.xml
@@ -1,18 +1,18 @@
 <?xml version="1.0" ?>
 <ebuttlm:message
-        ebuttp:sequenceIdentifier="{{ sequence_identifier }}"
+        ebuttp:sequenceIdentifier="{{ sequence_identifier | escape }}"
         xmlns:ebuttp="urn:ebu:tt:parameters"
         xmlns:ebuttlm="urn:ebu:tt:livemessage" >
     <ebuttlm:header>
       {% if sender %}
-        <ebuttlm:sender>{{ sender }}</ebuttlm:sender>
+        <ebuttlm:sender>{{ sender | escape }}</ebuttlm:sender>
       {% endif %}
       {% if recipient %}
       {% for item in recipient %}
-        <ebuttlm:recipient>{{ item }}</ebuttlm:recipient>
+        <ebuttlm:recipient>{{ item | escape }}</ebuttlm:recipient>
       {% endfor %}
       {% endif %}
         <ebuttlm:type>authorsGroupControlRequest</ebuttlm:type>
     </ebuttlm:header>
-    <ebuttlm:payload>{{ payload }}</ebuttlm:payload>
+    <ebuttlm:payload>{{ payload | escape }}</ebuttlm:payload>
 </ebuttlm:message>
\ No newline at end of file
diff --git a/ebu_tt_live/ui/user_input_producer/template/user_input_producer_template.xml b/ebu_tt_live/ui/user_input_producer/template/user_input_producer_template.xml
index 1e25407..f031fd7 100644
--- a/ebu_tt_live/ui/user_input_producer/template/user_input_producer_template.xml
+++ b/ebu_tt_live/ui/user_input_producer/template/user_input_producer_template.xml
@@ -1,6 +1,6 @@
 <?xml version="1.0" ?>
 <tt:tt
-        ebuttp:sequenceIdentifier="{{ sequence_identifier }}"
+        ebuttp:sequenceIdentifier="{{ sequence_identifier | escape }}"
         ebuttp:sequenceNumber="{{ sequence_number }}"
         ttp:timeBase="{{ time_base }}"
       {% if clock_mode %}
@@ -13,10 +13,10 @@
         ttp:dropMode="{{ drop_mode}}"
       {% endif %}
       {% if authors_group_identifier %}
-        ebuttp:authorsGroupIdentifier="{{authors_group_identifier}}"
+        ebuttp:authorsGroupIdentifier="{{ authors_group_identifier | escape }}"
       {% endif %}
       {% if authors_group_control_token %}
-        ebuttp:authorsGroupControlToken="{{authors_group_control_token}}"
+        ebuttp:authorsGroupControlToken="{{ authors_group_control_token | escape }}"
       {% endif %}
         xml:lang="en-GB"
         xmlns:ebuttm="urn:ebu:tt:metadata"
@@ -40,13 +40,13 @@
   </tt:head>
   <tt:body
   {% if body_begin %}
-    begin="{{ body_begin }}"
+    begin="{{ body_begin | escape }}"
   {% endif %}
   {% if body_end %}
-    end="{{ body_end }}"
+    end="{{ body_end | escape }}"
   {% endif %}
   {% if dur %}
-    dur="{{ dur }}"
+    dur="{{ dur | escape }}"
   {% endif %}
   >
     <tt:div region="bottomRegion">
diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index dc1a721..b4f70e4 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -497,7 +497,7 @@ $(document).ready(function() {
         if (authors_group_control_token) {
             template_data["authors_group_control_token"] = authors_group_control_token;
         }
-        template_data["body_content"] = $("#subtitle-content-textarea").val().replace(/\r?\n|\r/g, "<tt:br/>");
+        template_data["body_content"] = nunjucks.lib.escape($("#subtitle-content-textarea").val()).replace(/\r?\n|\r/g, "<tt:br/>");
         template_data["body_begin"] = $("#body-begin-input").val();
         template_data["body_end"] = $("#body-end-input").val();
         template_data["dur"] = $("#dur-input").val();
-- 
2.43.0


From 29c83ea0cae536c1dc66452ac871bd584bbd0fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:15:29 +0000
Subject: [PATCH 68/71] fix: scheduled documents are sent at the full second

---
 ebu_tt_live/ui/user_input_producer/uip.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index b4f70e4..99b7460 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -543,7 +543,7 @@ $(document).ready(function() {
             if (scheduled_time_parsed != null) {
               scheduled_time.setHours(scheduled_time_parsed[1]);
               scheduled_time.setMinutes(scheduled_time_parsed[2]);
-              scheduled_time.setSeconds(scheduled_time_parsed[3]);
+              scheduled_time.setSeconds(scheduled_time_parsed[3], 0);
               timeout = scheduled_time.getTime() - Date.now();
             }
         } else { // media offset is not null
-- 
2.43.0


From f8510300134d989c1cd5f835d258f6725e023bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:15:29 +0000
Subject: [PATCH 69/71] fix: messages without sender or payload are listed by
 the user input producer

---
 ebu_tt_live/ui/user_input_producer/uip.js | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index 99b7460..163fdc5 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -169,20 +169,16 @@ $(document).ready(function() {
         $("#new-sequence-notification-span").text("");
     }
 
+    function getMessageText(parent, name) {
+        /* The sender is optional and elements may be empty */
+        var element = parent.getElementsByTagNameNS('urn:ebu:tt:livemessage', name)[0];
+        return element ? element.textContent : '';
+    }
+
     function createMessageListItem(message) {
         var clonedElement = $('#result-list .message-item-template').clone();
-        clonedElement.find('.sender-value').text(
-            message.getElementsByTagNameNS(
-                'urn:ebu:tt:livemessage', 'header'
-            )[0].getElementsByTagNameNS(
-                'urn:ebu:tt:livemessage', 'sender'
-            )[0].firstChild.nodeValue
-        );
-        clonedElement.find('.payload').text(
-          message.getElementsByTagNameNS(
-            'urn:ebu:tt:livemessage', 'payload'
-          )[0].firstChild.nodeValue
-        );
+        clonedElement.find('.sender-value').text(getMessageText(message, 'sender'));
+        clonedElement.find('.payload').text(getMessageText(message, 'payload'));
 
         clonedElement.removeClass('message-item-template');
         clonedElement.addClass('result-list-item');
-- 
2.43.0


From 31d050210c8e503d592bf039a5b883a75cb0c28b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:15:29 +0000
Subject: [PATCH 70/71] fix: the running clocks of the user input producer do
 not pile up timers and start from zero

---
 ebu_tt_live/ui/user_input_producer/uip.js | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index 163fdc5..d62f2a3 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -89,14 +89,12 @@ $(document).ready(function() {
             $("#asynchronous-send-setup-div").show();
             $("#submit-subtitle-button").hide();
             $("#schedule-subtitle-button").hide();
-            stopResetRunningClock();
         } else {
             $("#scheduled-time-span").hide();
             $("#scheduled-send-setup-div").hide();
             $("#asynchronous-send-setup-div").hide();
             $("#schedule-subtitle-button").hide();
             $("#submit-subtitle-button").show();
-            stopResetRunningClock();
         }
     }
 
@@ -105,32 +103,40 @@ $(document).ready(function() {
 
     function handleScheduledSendSetupDependingOptions() {
         var selected_clock_type = $("#scheduled-send-clock-selector").val();
-        stopResetRunningClock();
         if (selected_clock_type == "local") {
+            stopResetRunningClock();
             $("#synchronize-media-clock-button").hide();
             $('#running-clock').show();
             $('#running-clock-media').hide();
             interval_running_clock = setInterval(updateRunningClockLocal, 500);
         } else {
             $("#synchronize-media-clock-button").show();
+            if (scheduled_send_media_clock_offset != null) {
+                startRunningClockMedia();
+            }
         }
     }
 
     handleScheduledSendSetupDependingOptions();
 
+    function startRunningClockMedia() {
+        stopResetRunningClock();
+        $('#running-clock').hide();
+        $('#running-clock-media').show();
+        interval_running_clock = setInterval(updateRunningClockMedia, 500);
+    }
+
     function updateRunningClockMedia() {
       var diff = moment().diff(scheduled_send_media_clock_offset);
-      var offset = moment(diff).format('HH:mm:ss');
+      var offset = moment.utc(diff).format('HH:mm:ss');
 
       $('#running-clock-media').html(offset);
-      setTimeout(updateRunningClockMedia, 500);
     }
 
     function updateRunningClockLocal() {
       var time = moment().format('HH:mm:ss');
 
       $('#running-clock').html(time);
-      setTimeout(updateRunningClockLocal, 500);
     }
 
     /************************************************** Helper functions ******************************************/
@@ -435,10 +441,7 @@ $(document).ready(function() {
 
     $("#synchronize-media-clock-button").click(function() {
         scheduled_send_media_clock_offset = moment();
-        stopResetRunningClock();
-        $('#running-clock').hide();
-        $('#running-clock-media').show();
-        interval_running_clock = setInterval(updateRunningClockMedia, 500);
+        startRunningClockMedia();
         notifySuccess($("#scheduled-send-status-span"), "Synchronized", true);
     });
 
-- 
2.43.0


From 3b65e21e60a64dbd5ffa9e4d7df30c5446c0a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:47:48 +0000
Subject: [PATCH 71/71] fix: writing a document leaves no suspended generators
 behind

Generators have finalizers in Jython. Those of any() ended early, one per element, kept documents that were
written shortly before alive for longer than needed.
---
 ebu_tt_live/bindings/pyxb_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/pyxb_utils.py b/ebu_tt_live/bindings/pyxb_utils.py
index b8d08e0..9b0838e 100644
--- a/ebu_tt_live/bindings/pyxb_utils.py
+++ b/ebu_tt_live/bindings/pyxb_utils.py
@@ -170,7 +170,7 @@ _MIXED_CONTENT_ELEMENTS = ('p', 'span')
 def _indent_element(element, indent, level):
     children = list(element.childNodes)
     if not children or element.tagName.split(':')[-1] in _MIXED_CONTENT_ELEMENTS or \
-            any(child.nodeType in (child.TEXT_NODE, child.CDATA_SECTION_NODE) for child in children):
+            [child for child in children if child.nodeType in (child.TEXT_NODE, child.CDATA_SECTION_NODE)]:
         return
     document = element.ownerDocument
     for child in children:
-- 
2.43.0

