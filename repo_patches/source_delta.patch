From e26fd2a851ba32b41aef2c49c95db63e3346c033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 01/24] fix: keep the sequence timeline consistent for
 out-of-order, open-ended and late documents

Inserting a document in front of one with a higher number left its end event behind the begin
event of the same moment, so that the next document in line raised ValueError; an open-ended one raised
TypeError; a document whose end had passed before it could begin was looked up as active for ever.
---
 ebu_tt_live/documents/ebutt3.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index df11650..04c994b 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -50,6 +50,14 @@ class TimingEvent(object):
     def element(self):
         return self._element
 
+    @property
+    def order(self):
+        """
+        Timeline position. At the same moment the ends of the elements that began earlier come first, then the begins,
+        then the ends of the elements that have no duration.
+        """
+        return self.when, 1
+
 
 # R16
 class TimingEventBegin(TimingEvent):
@@ -74,7 +82,15 @@ class TimingEventEnd(TimingEvent):
     Element/document resolved end time.
     """
     def __init__(self, element):
-        super(TimingEventEnd, self).__init__(element=element, when=element.computed_end_time)
+        when = element.computed_end_time
+        if when is not None and when < element.computed_begin_time:
+            # An element that ends before it could begin (i.e.: late availability) is never active
+            when = element.computed_begin_time
+        super(TimingEventEnd, self).__init__(element=element, when=when)
+
+    @property
+    def order(self):
+        return self.when, 0 if self.when > self.element.computed_begin_time else 2
 
     def __repr__(self):
         return '<{}({}): {}>'.format(
@@ -96,7 +112,7 @@ class TimelineUtilMixin(object):
     @property
     def timeline(self):
         if self._timeline is None:
-            self._timeline = sortedlist.SortedListWithKey(key=lambda item: item.when)
+            self._timeline = sortedlist.SortedListWithKey(key=lambda item: item.order)
         return self._timeline
 
     def reset_timeline(self):
@@ -774,7 +790,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                     raise SequenceOverridden()
                 if item.element.sequence_number > document.sequence_number:
                     # This means our document may get trimmed into shape
-                    if this_ends.when > item.when:
+                    if this_ends.when is None or this_ends.when > item.when:
                         trims_this = item
                     break
 
-- 
2.43.0


From 79f3dc963e34193978da123c9b9dbf43ae27e2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 02/24] fix: report an incompatible document as
 IncompatibleSequenceError

Formatting the message raised KeyError instead.
---
 ebu_tt_live/documents/ebutt3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 04c994b..13e04dd 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -658,12 +658,12 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
         if self.sequence_identifier != document.sequence_identifier or \
                 self._reference_clock.time_base != document.time_base:
             raise IncompatibleSequenceError(
-                ERR_DOCUMENT_NOT_COMPATIBLE.format('ebuttp:sequenceIdentifier or ttp:timeBase')
+                ERR_DOCUMENT_NOT_COMPATIBLE.format(attr_names='ebuttp:sequenceIdentifier or ttp:timeBase')
             )
         if self._reference_clock.time_base == 'clock':
             if self._reference_clock.clock_mode != document.clock_mode:
                 raise IncompatibleSequenceError(
-                    ERR_DOCUMENT_NOT_COMPATIBLE.format('ttp:clockMode')
+                    ERR_DOCUMENT_NOT_COMPATIBLE.format(attr_names='ttp:clockMode')
                 )
         existing_document = None
         try:
-- 
2.43.0


From 0e5e5314d3db9da9e2d50a8fef712ef5d31c64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 03/24] fix: an open-ended document is not discarded

Asking raised TypeError because the resolved end is None.
---
 ebu_tt_live/documents/ebutt3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 13e04dd..23f90ac 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -458,7 +458,7 @@ class EBUTT3Document(TimelineUtilMixin, SubtitleDocument, EBUTT3ObjectBase):
 
     @property
     def discarded(self):
-        return self.resolved_begin_time >= self.resolved_end_time
+        return self.resolved_end_time is not None and self.resolved_begin_time >= self.resolved_end_time
 
     def content_to_string(self, begin=None, end=None):
         """
-- 
2.43.0


From d2f5582540045b7349ab1a7fcb438df509f501c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 04/24] fix: retrieve a document by its sequence number, not by
 its position

---
 ebu_tt_live/documents/ebutt3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 23f90ac..9f61da5 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -933,7 +933,10 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
             self._last_sequence_number = document.sequence_number
 
     def get_document(self, seq_id):
-        return self._documents[seq_id]
+        idx = self._documents.bisect_key_left(seq_id)
+        if idx < len(self._documents) and self._documents[idx].sequence_number == seq_id:
+            return self._documents[idx]
+        raise KeyError(seq_id)
 
     def _find_resolved_begin_event(self, document):
         if document not in self._documents:
-- 
2.43.0


From cf48df115b6fedc78c175b3c9d08811382cd666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 05/24] fix: accept documents whose identifiers are not ASCII

---
 ebu_tt_live/adapters/document_data.py | 2 +-
 ebu_tt_live/documents/ebutt3.py       | 6 +++---
 ebu_tt_live/node/base.py              | 2 +-
 ebu_tt_live/node/delay.py             | 2 +-
 ebu_tt_live/node/distributing.py      | 2 +-
 ebu_tt_live/strings.py                | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ebu_tt_live/adapters/document_data.py b/ebu_tt_live/adapters/document_data.py
index b237ba8..f790723 100644
--- a/ebu_tt_live/adapters/document_data.py
+++ b/ebu_tt_live/adapters/document_data.py
@@ -34,7 +34,7 @@ class XMLtoEBUTT3Adapter(IDocumentDataAdapter):
 
         if sequence_identifier is not None and sequence_identifier != doc.sequence_identifier:
             log.error(
-                'Sequence identifier mismatch found: {} != {}'.format(sequence_identifier, doc.sequence_identifier)
+                u'Sequence identifier mismatch found: {} != {}'.format(sequence_identifier, doc.sequence_identifier)
             )
             raise UnexpectedSequenceIdentifierError()
         kwargs.update(dict(
diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 9f61da5..f96fe43 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -700,7 +700,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                     # Set the one we currently have in the document except the empty string
                     self._authors_group_identifier = document.authors_group_identifier
 
-            log.debug('Sequence number: {} can be safely inserted into sequence: {}'.format(
+            log.debug(u'Sequence number: {} can be safely inserted into sequence: {}'.format(
                 document.sequence_number,
                 self.sequence_identifier
             ))
@@ -1003,7 +1003,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                 document_segments.append(doc_segment)
             except Exception as err:
                 log.error(
-                    'Error extracting document segment from {}__{}'.format(
+                    u'Error extracting document segment from {}__{}'.format(
                         doc.sequence_identifier, doc.sequence_number
                     )
                 )
@@ -1019,7 +1019,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
             # comp_doc.set_end(end)
         else:
             splicer = EBUTT3Splicer(
-                sequence_identifier='{}_resegmented'.format(self.sequence_identifier),
+                sequence_identifier=u'{}_resegmented'.format(self.sequence_identifier),
                 sequence_number=current_sequence_number,
                 document_segments=document_segments
             )
diff --git a/ebu_tt_live/node/base.py b/ebu_tt_live/node/base.py
index 80835b2..40fa4b0 100644
--- a/ebu_tt_live/node/base.py
+++ b/ebu_tt_live/node/base.py
@@ -92,7 +92,7 @@ class AbstractConsumerNode(IConsumerNode, __AbstractNode):
 
         if self._first_input_document_sequence != document.sequence_identifier:
             log.error(
-                'Sequences limited to one: expecting: {}, received: {}'.format(self._first_input_document_sequence, document.sequence_identifier)
+                u'Sequences limited to one: expecting: {}, received: {}'.format(self._first_input_document_sequence, document.sequence_identifier)
             )
             raise UnexpectedSequenceIdentifierError('Rejecting new sequence identifier')
 
diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index c873e93..cfd80b8 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -70,7 +70,7 @@ class RetimingDelayNode(AbstractCombinedNode):
                 self.producer_carriage.emit_data(data=document, **kwargs)
             else:
                 log.warning(
-                    'Ignoring duplicate document: {}__{}'.format(
+                    u'Ignoring duplicate document: {}__{}'.format(
                         document.sequence_identifier,
                         document.sequence_number
                     )
diff --git a/ebu_tt_live/node/distributing.py b/ebu_tt_live/node/distributing.py
index 85acfb7..7ea70e8 100644
--- a/ebu_tt_live/node/distributing.py
+++ b/ebu_tt_live/node/distributing.py
@@ -41,7 +41,7 @@ class DistributingNode(AbstractCombinedNode):
                 )
             else:
                 log.warning(
-                    'Ignoring duplicate document: {}__{}'.format(
+                    u'Ignoring duplicate document: {}__{}'.format(
                         document.sequence_identifier,
                         document.sequence_number
                     )
diff --git a/ebu_tt_live/strings.py b/ebu_tt_live/strings.py
index e2fb6c1..b9353ee 100644
--- a/ebu_tt_live/strings.py
+++ b/ebu_tt_live/strings.py
@@ -1,4 +1,4 @@
-
+from __future__ import unicode_literals
 from gettext import gettext
 
 # ERRORS
-- 
2.43.0


From 43924b8b50ab637025ade8293ef2ccb1a11f0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 06/24] fix: a document of a foreign sequence is refused before
 it is noted as seen, and an init document locks its sequence

---
 ebu_tt_live/node/consumer.py     | 1 +
 ebu_tt_live/node/deduplicator.py | 4 ++--
 ebu_tt_live/node/delay.py        | 4 ++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/node/consumer.py b/ebu_tt_live/node/consumer.py
index f57f046..ec29fb0 100644
--- a/ebu_tt_live/node/consumer.py
+++ b/ebu_tt_live/node/consumer.py
@@ -103,6 +103,7 @@ class ReSequencer(AbstractProducerNode, SimpleConsumer):
             with open(init_document, 'r') as xml_file:
                 xml_content = xml_file.read()
             xml_doc = EBUTT3Document.create_from_xml(xml_content)
+            self.limit_sequence_to_one(xml_doc)
             self.create_sequence_from_document(xml_doc)
 
     @property
diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index e58364a..21ce27c 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -37,9 +37,9 @@ class DeDuplicatorNode(AbstractCombinedNode):
             if document.sequence_identifier == self._sequence_identifier:
                 raise UnexpectedSequenceIdentifierError()
 
-            if self.check_if_document_seen(document=document):
+            self.limit_sequence_to_one(document)
 
-                self.limit_sequence_to_one(document)
+            if self.check_if_document_seen(document=document):
 
                 document.sequence_identifier = self._sequence_identifier
 
diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index cfd80b8..06274c9 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -36,9 +36,9 @@ class RetimingDelayNode(AbstractCombinedNode):
             if document.sequence_identifier == self._document_sequence:
                 raise UnexpectedSequenceIdentifierError()
 
-            if self.check_if_document_seen(document=document):
+            self.limit_sequence_to_one(document)
 
-                self.limit_sequence_to_one(document)
+            if self.check_if_document_seen(document=document):
 
                 # change the sequence identifier
                 document.sequence_identifier = self._document_sequence
-- 
2.43.0


From 4d981ea0c063b65bb2a202db9029cc32a725dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 07/24] fix: a begin, end or duration of zero is a stated time

---
 ebu_tt_live/bindings/validation/timing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/validation/timing.py b/ebu_tt_live/bindings/validation/timing.py
index a966554..40741e3 100644
--- a/ebu_tt_live/bindings/validation/timing.py
+++ b/ebu_tt_live/bindings/validation/timing.py
@@ -36,8 +36,8 @@ class TimingValidationMixin(object):
             context.pop('timing_attribute_name', None)
 
     def _pre_init_variables(self, dataset, element_content):
-        self._begin_timedelta = self.begin and self.begin.timedelta or None
-        self._end_timedelta = self.end and self.end.timedelta or None
+        self._begin_timedelta = self.begin.timedelta if self.begin is not None else None
+        self._end_timedelta = self.end.timedelta if self.end is not None else None
         # We make sure end time is always none at the beginning because it can cause a LogicError with a stale value
         self._computed_begin_time = None
         self._computed_end_time = None
@@ -321,7 +321,7 @@ class BodyTimingValidationMixin(TimingValidationMixin):
 
     def _pre_init_variables(self, dataset, element_content):
         super(BodyTimingValidationMixin, self)._pre_init_variables(dataset, element_content)
-        self._dur_timedelta = self.dur and self.dur.timedelta or None
+        self._dur_timedelta = self.dur.timedelta if self.dur is not None else None
 
     def _post_cleanup_variables(self):
         del self._dur_timedelta
-- 
2.43.0


From 40d59aa605e2169e8dcfabf40c0a461d608e91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 08/24] fix: contradictory times are found by the moments they
 state, not their spelling

---
 ebu_tt_live/bindings/validation/timing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/validation/timing.py b/ebu_tt_live/bindings/validation/timing.py
index 40741e3..a7929ca 100644
--- a/ebu_tt_live/bindings/validation/timing.py
+++ b/ebu_tt_live/bindings/validation/timing.py
@@ -46,7 +46,7 @@ class TimingValidationMixin(object):
     def _element_badly_timed(self, value, element):
         return (element.begin is not None and \
                 element.end is not None and \
-                element.end <= element.begin)
+                element.end.timedelta <= element.begin.timedelta)
         
     def _post_cleanup_variables(self):
         del self._semantic_dataset
-- 
2.43.0


From 21e8e044cd8c91f70ae04aaf897b698bb06b0223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 09/24] fix: documents without styles or regions can be cut

---
 ebu_tt_live/documents/ebutt3_segmentation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index 3b948ea..d061ad0 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -154,10 +154,11 @@ class EBUTT3Segmenter(RecursiveOperation):
             if isinstance(item, region_type):
                 self._segment.head.layout.region.remove(self._semantic_dataset['instance_mapping'][item])
 
-        if len(self._segment.head.styling.style) == 0:
-            self._segment.head.styling = None
-        if len(self._segment.head.layout.region) == 0:
-            self._segment.head.layout.region = None
+        head = self._segment.head
+        if head.styling is not None and len(head.styling.style) == 0:
+            head.styling = None
+        if head.layout is not None and len(head.layout.region) == 0:
+            head.layout = None
 
     def compute_document_segment(self):
         # Init
-- 
2.43.0


From 63eb8272ea6b5696a98074dbd725c8c3ba746b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 10/24] fix: a document can be cut to a range it has nothing
 in, or to an open one

---
 ebu_tt_live/bindings/validation/timing.py    | 2 +-
 ebu_tt_live/documents/ebutt3_segmentation.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/bindings/validation/timing.py b/ebu_tt_live/bindings/validation/timing.py
index a7929ca..5ac2be0 100644
--- a/ebu_tt_live/bindings/validation/timing.py
+++ b/ebu_tt_live/bindings/validation/timing.py
@@ -309,7 +309,7 @@ class TimingValidationMixin(object):
 
             # Create compatible timing types
             copied_instance.begin = tt_elem.get_timing_type(trimmed_begin)
-            copied_instance.end = tt_elem.get_timing_type(trimmed_end)
+            copied_instance.end = tt_elem.get_timing_type(trimmed_end) if trimmed_end is not None else None
 
 
 class BodyTimingValidationMixin(TimingValidationMixin):
diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index d061ad0..063d49b 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -2,6 +2,7 @@
 from datetime import timedelta
 import logging
 import copy
+from pyxb import BIND
 from ebu_tt_live.bindings.validation.base import SemanticValidationMixin, IDMixin
 from ebu_tt_live.bindings.pyxb_utils import RecursiveOperation
 from ebu_tt_live.bindings.validation.presentation import StyledElementMixin
@@ -205,6 +206,8 @@ class EBUTT3Segmenter(RecursiveOperation):
         self._instance_mapping = dataset.pop('instance_mapping')
 
         # Empty document edge-case
-        if len(self._segment.body.orderedContent()) == 0:
-            self._segment.body.begin = self._convert_time(self.begin)
-            self._segment.body.end = self._convert_time(self.end)
+        if self._segment.body is None or len(self._segment.body.orderedContent()) == 0:
+            self._segment.body = BIND(
+                begin=self._convert_time(self.begin) if self.begin is not None else None,
+                end=self._convert_time(self.end) if self.end is not None else None
+            )
-- 
2.43.0


From 6e48f17324197e01a3e845e8f3a8925030fc55f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 11/24] fix: text next to spans keeps its timing when a
 document is cut

---
 ebu_tt_live/documents/ebutt3_segmentation.py | 30 +++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index 063d49b..485bdf9 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -2,11 +2,12 @@
 from datetime import timedelta
 import logging
 import copy
+import six
 from pyxb import BIND
 from ebu_tt_live.bindings.validation.base import SemanticValidationMixin, IDMixin
 from ebu_tt_live.bindings.pyxb_utils import RecursiveOperation
 from ebu_tt_live.bindings.validation.presentation import StyledElementMixin
-from ebu_tt_live.bindings import style_type, region_type
+from ebu_tt_live.bindings import style_type, region_type, p_type, span_type, br_type
 from ebu_tt_live.errors import DiscardElement
 from ebu_tt_live.bindings import ebuttdt
 
@@ -111,7 +112,9 @@ class EBUTT3Segmenter(RecursiveOperation):
                     element_content=element
                 )
 
-                if element:
+                if isinstance(value, br_type):
+                    self._link_inline_content(celem, parent_binding=parent_binding)
+                elif element:
                     value._do_link_copy_with_copied_parent(
                         dataset=self._semantic_dataset,
                         element_content=element,
@@ -124,8 +127,27 @@ class EBUTT3Segmenter(RecursiveOperation):
 
 
     def _process_non_element(self, value, non_element, parent_binding=None, **kwargs):
-        parent = self._semantic_dataset['instance_mapping'][parent_binding]
-        parent.append(copy.deepcopy(value))
+        copied_value = copy.deepcopy(value)
+        if isinstance(copied_value, six.string_types) and not copied_value.isspace():
+            self._link_inline_content(copied_value, parent_binding=parent_binding)
+        else:
+            self._semantic_dataset['instance_mapping'][parent_binding].append(copied_value)
+
+    def _link_inline_content(self, content, parent_binding):
+        """
+        Text and line breaks next to spans cannot be timed by their container because the timing of containers is not
+        copied. They get a span of their own, which is timed the way their container was.
+        :param content: the copied text or line break
+        :param parent_binding: the container in the source document
+        """
+        if isinstance(parent_binding, (p_type, span_type)) and not parent_binding.is_timed_leaf():
+            timed_span = span_type(content)
+            parent_binding._semantic_copy_apply_leaf_timing(
+                copied_instance=timed_span,
+                dataset=self._semantic_dataset
+            )
+            content = timed_span
+        self._semantic_dataset['instance_mapping'][parent_binding].append(content)
 
     def proceed(self, **kwargs):
         self._semantic_dataset = {}
-- 
2.43.0


From 2846a9d9bc08624a176f804300a842e8a3a10863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 12/24] fix: styles and regions of a div apply to what is in
 it, not to what follows it

---
 ebu_tt_live/bindings/__init__.py                | 1 +
 ebu_tt_live/bindings/validation/presentation.py | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 4b1eb43..59af295 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -870,6 +870,7 @@ class div_type(ContentContainerMixin, IDMixin, RegionedElementMixin, LiveStyledE
     def _semantic_after_traversal(self, dataset, element_content=None, parent_binding=None):
         self._semantic_postprocess_timing(dataset=dataset, element_content=element_content)
         self._semantic_unset_region(dataset=dataset)
+        self._semantic_pop_styles(dataset=dataset)
 
     def _semantic_before_copy(self, dataset, element_content=None):
         self._assert_in_segment(dataset=dataset, element_content=element_content)
diff --git a/ebu_tt_live/bindings/validation/presentation.py b/ebu_tt_live/bindings/validation/presentation.py
index 94711e4..1b6533b 100644
--- a/ebu_tt_live/bindings/validation/presentation.py
+++ b/ebu_tt_live/bindings/validation/presentation.py
@@ -172,11 +172,13 @@ class RegionedElementMixin(object):
     """
 
     _validated_region = None
+    _enclosing_region = None
 
     def _semantic_set_region(self, dataset, region_type):
         if self.region is not None:
             try:
                 region = dataset['tt_element'].get_element_by_id(self.region, region_type)
+                self._enclosing_region = dataset.get('region', None)
                 dataset['region'] = region
                 self._validated_region = region
             except LookupError:
@@ -186,7 +188,8 @@ class RegionedElementMixin(object):
 
     def _semantic_unset_region(self, dataset):
         if self.region is not None:
-            dataset['region'] = None
+            # Siblings are still in the region of our container
+            dataset['region'] = self._enclosing_region
 
     def _semantic_copy_verify_referenced_region(self, dataset):
         orphans = dataset['orphaned_elements']
-- 
2.43.0


From 1c7a46a9f413dcf517446f3106479c9be7dadd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 13/24] fix: the order of the paragraphs and divisions of a div
 survives serialization

---
 ebu_tt_live/bindings/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 59af295..c3c8c08 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -675,6 +675,10 @@ raw.head_type._SetSupersedingClass(head_type)
 # Body classes
 # ============
 
+# PyXB generates non-mixed content in the order of the schema by default. This makes it follow the order of the content.
+document_order_config = pyxb.GlobalValidationConfig.copy()
+document_order_config._setContentInfluencesGeneration(document_order_config.ALWAYS)
+
 
 class p_type(RegionedElementMixin, LiveStyledElementMixin, SubtitleContentContainer, raw.p_type):
 
@@ -826,6 +830,9 @@ raw.br_type._SetSupersedingClass(br_type)
 class div_type(ContentContainerMixin, IDMixin, RegionedElementMixin, LiveStyledElementMixin, TimingValidationMixin,
                SemanticValidationMixin, raw.div_type):
 
+    # A div may contain p and div elements in any order and that order has to survive serialization.
+    _validationConfig_ = document_order_config
+
     _attr_en_pre = {
         (pyxb.namespace.ExpandedName(None, 'begin')).uriTuple(): TimingValidationMixin._pre_timing_set_attribute,
         (pyxb.namespace.ExpandedName(None, 'end')).uriTuple(): TimingValidationMixin._pre_timing_set_attribute
-- 
2.43.0


From db060b4cb35a79f0e5ff64ea44c955807fab1303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 14/24] fix: a segment keeps the regions and styles its
 containers refer to

---
 ebu_tt_live/documents/ebutt3_segmentation.py | 25 ++++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index 485bdf9..ae73844 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -6,7 +6,6 @@ import six
 from pyxb import BIND
 from ebu_tt_live.bindings.validation.base import SemanticValidationMixin, IDMixin
 from ebu_tt_live.bindings.pyxb_utils import RecursiveOperation
-from ebu_tt_live.bindings.validation.presentation import StyledElementMixin
 from ebu_tt_live.bindings import style_type, region_type, p_type, span_type, br_type
 from ebu_tt_live.errors import DiscardElement
 from ebu_tt_live.bindings import ebuttdt
@@ -196,18 +195,18 @@ class EBUTT3Segmenter(RecursiveOperation):
         affected_elements.add(self.document.binding.body)
         orphaned_elements = set()
 
-        for item in [
-            elem for elem in affected_elements
-            if isinstance(elem, StyledElementMixin)
-        ]:
-            # Styles and regions are meant to be preserved. We put in everything that is likely to be needed
-            # NOTE: There is a possibility that after copying some containers stay empty so they get removed from the
-            # copy . In that case the unreferenced elements will be removed from the head.
-            affected_elements.update(item.validated_styles)
-            orphaned_elements.update(item.validated_styles)
-            if item.inherited_region is not None:
-                affected_elements.add(item.inherited_region)
-                orphaned_elements.add(item.inherited_region)
+        # Styles and regions are meant to be preserved. We put in everything that is likely to be needed. That includes
+        # those the containers refer to, which are not on the timeline.
+        # NOTE: The elements that are not referenced by anything that was copied will be removed from the head.
+        head = self.document.binding.head
+        for container, elem_type in (
+            (head.styling, style_type),
+            (head.layout, region_type)
+        ):
+            if container is not None:
+                elements = [item.value for item in container.orderedContent() if isinstance(item.value, elem_type)]
+                affected_elements.update(elements)
+                orphaned_elements.update(elements)
 
         dataset = {
             'segment_begin': self.begin,
-- 
2.43.0


From 3cab0cc35eda9c6e14c83ec9f16abe16b1b859df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 15/24] fix: a segment keeps the multiRowAlign of its styles

---
 ebu_tt_live/bindings/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index c3c8c08..7aeea66 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -124,6 +124,7 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
             wrapOption=self.wrapOption,
             padding=self.padding,
             linePadding=self.linePadding,
+            multiRowAlign=self.multiRowAlign,
             _strict_keywords=False
         )
         return copied_style
-- 
2.43.0


From cc3a5fb8542cb240f56c477850d91867204f34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 16/24] fix: segments of documents with identifiers that are
 not ASCII can be taken and spliced

---
 ebu_tt_live/bindings/__init__.py        | 6 +++---
 ebu_tt_live/bindings/validation/base.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 7aeea66..6b5ccbd 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -960,7 +960,7 @@ class body_type(LiveStyledElementMixin, BodyTimingValidationMixin, SemanticValid
                     if copied_elem.id is not None and copied_elem.id in ids:
                         next_try = copied_elem.id
                         while next_try in ids:
-                            next_try = '{}.1'.format(next_try)
+                            next_try = u'{}.1'.format(next_try)
                         copied_elem.id = next_try
                     ids.add(copied_elem.id)
                 output.append(copied_elem)
@@ -1022,7 +1022,7 @@ class styling(SemanticValidationMixin, raw.styling):
             for item in other_elem.orderedContent():
                 copied_style = copy.copy(item.value)
                 if item.value.id in style_ids:
-                    copied_style.id = '{}.1'.format(copied_style.id)
+                    copied_style.id = u'{}.1'.format(copied_style.id)
                 self.append(copied_style)
 
         return self
@@ -1103,7 +1103,7 @@ class layout(SemanticValidationMixin, raw.layout):
             for item in other_elem.orderedContent():
                 copied_region = copy.copy(item.value)
                 if copied_region.id in region_ids:
-                    copied_region.id = '{}.1'.format(copied_region.id)
+                    copied_region.id = u'{}.1'.format(copied_region.id)
                     region_ids.add(copied_region.id)
                 self.append(copied_region)
         return self
diff --git a/ebu_tt_live/bindings/validation/base.py b/ebu_tt_live/bindings/validation/base.py
index 5048ee6..c64bab6 100644
--- a/ebu_tt_live/bindings/validation/base.py
+++ b/ebu_tt_live/bindings/validation/base.py
@@ -201,7 +201,7 @@ class IDMixin(object):
     """
 
     _re_ebu_id_deconflict = re.compile('SEQ([0-9]+)\.(.*)')
-    _tp_ebu_id_deconflict = 'SEQ{sequence_number}.{original_id}'
+    _tp_ebu_id_deconflict = u'SEQ{sequence_number}.{original_id}'
 
     def deconflict_id(self, seq_num):
         if self.id is not None:
-- 
2.43.0


From 0c3ff2fd9434c80cd255ca50d2b2273e258dfcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 17/24] fix: the styles of a spliced body stay with its own
 content

---
 ebu_tt_live/bindings/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 6b5ccbd..9f011c3 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -976,11 +976,17 @@ class body_type(LiveStyledElementMixin, BodyTimingValidationMixin, SemanticValid
         merged_body.begin = None
         merged_body.dur = None
         merged_body.end = None
+        # Styles of one body do not apply to the content of the other, so they move onto a div around the content.
+        merged_body.style = None
         # The same recursive ID collision issue... DAMN!
         ids = dataset['ids']
 
-        self._merge_deconflict_ids(element=self, dest=merged_body, ids=ids)
-        self._merge_deconflict_ids(element=other_elem, dest=merged_body, ids=ids)
+        for body in (self, other_elem):
+            dest = merged_body
+            if body.style:
+                dest = div_type(style=body.style)
+                merged_body.append(dest)
+            self._merge_deconflict_ids(element=body, dest=dest, ids=ids)
 
         return merged_body
 
-- 
2.43.0


From d6cd37320853a7f5614975fae7ccc069a1e5d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:20 +0000
Subject: [PATCH 18/24] fix: a segment presenting nothing keeps the styles of
 its body referenced

---
 ebu_tt_live/documents/ebutt3_segmentation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index ae73844..2d1e22f 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -230,5 +230,7 @@ class EBUTT3Segmenter(RecursiveOperation):
         if self._segment.body is None or len(self._segment.body.orderedContent()) == 0:
             self._segment.body = BIND(
                 begin=self._convert_time(self.begin) if self.begin is not None else None,
-                end=self._convert_time(self.end) if self.end is not None else None
+                end=self._convert_time(self.end) if self.end is not None else None,
+                # Its styles have been copied
+                style=self._segment.body.style if self._segment.body is not None else None
             )
-- 
2.43.0


From 8a8a4ee34695d65fbcfd88786bcebe71077c619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 19/24] fix: styles and regions dropped from a segment stay
 dropped when it is spliced

---
 ebu_tt_live/bindings/__init__.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 9f011c3..67f572b 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -1022,12 +1022,13 @@ class styling(SemanticValidationMixin, raw.styling):
 
     def merge(self, other_elem, dataset):
         style_ids = dataset['ids']
-        for item in self.orderedContent():
-            style_ids.add(item.value.id)
+        # NOTE: The ordered content may still contain elements that were removed since
+        for item in self.style:
+            style_ids.add(item.id)
         if other_elem:
-            for item in other_elem.orderedContent():
-                copied_style = copy.copy(item.value)
-                if item.value.id in style_ids:
+            for item in other_elem.style:
+                copied_style = copy.copy(item)
+                if item.id in style_ids:
                     copied_style.id = u'{}.1'.format(copied_style.id)
                 self.append(copied_style)
 
@@ -1103,11 +1104,12 @@ class layout(SemanticValidationMixin, raw.layout):
 
     def merge(self, other_elem, dataset):
         region_ids = dataset['ids']
-        for item in self.orderedContent():
-            region_ids.add(item.value.id)
+        # NOTE: The ordered content may still contain elements that were removed since
+        for item in self.region:
+            region_ids.add(item.id)
         if other_elem:
-            for item in other_elem.orderedContent():
-                copied_region = copy.copy(item.value)
+            for item in other_elem.region:
+                copied_region = copy.copy(item)
                 if copied_region.id in region_ids:
                     copied_region.id = u'{}.1'.format(copied_region.id)
                     region_ids.add(copied_region.id)
-- 
2.43.0


From 55ee3535c88d010be74725e8a05b395fc0e0e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 20/24] fix: what starts with an untimed body moves with it
 when a document is retimed, whatever contains it

---
 ebu_tt_live/node/delay.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index 06274c9..d6be722 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -192,6 +192,14 @@ class UntimedPathFinder(RecursiveOperation):
         else:
             return False
 
+    def _has_timed_children(self, value):
+        # Children whose end does not follow their begin don't take part in the timing of their parent
+        for child in value.orderedContent():
+            if isinstance(child.value, TimingValidationMixin) \
+                    and not child.value._element_badly_timed(value=None, element=child.value):
+                return True
+        return False
+
     def _before_element(self, value, element=None, parent_binding=None, **kwargs):
         if self._path_found is True:
             raise StopBranchIteration()
@@ -203,9 +211,8 @@ class UntimedPathFinder(RecursiveOperation):
             bla = self._timed_element_stack.pop()
 
     def _process_element(self, value, element=None, parent_binding=None, **kwargs):
-        if value.is_timed_leaf() and not len(self._timed_element_stack):
+        if not len(self._timed_element_stack) and not self._has_timed_children(value):
             self._path_found = True
-            raise StopBranchIteration()
 
     def _process_non_element(self, value, non_element, parent_binding=None, **kwargs):
         pass
-- 
2.43.0


From c948086cc82b08b7c83dee8322127b034e6432d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 21/24] fix: the duration of a body without a begin is kept
 when what is in it is retimed

---
 ebu_tt_live/node/delay.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index d6be722..653de97 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -126,6 +126,16 @@ def update_children_timing(element, timebase, delay_int):
                     child.value.begin = FullClockTimingType(child.value.begin.timedelta + delay.timedelta)
 
             else:
+                # without a begin the duration counts from the start of the document
+                if hasattr(child.value, 'dur') and child.value.dur != None:
+
+                    if timebase == 'clock':
+                        delay = LimitedClockTimingType(timedelta(seconds=delay_int))
+                        child.value.dur = LimitedClockTimingType(child.value.dur.timedelta + delay.timedelta)
+                    elif timebase == 'media':
+                        delay = FullClockTimingType(timedelta(seconds=delay_int))
+                        child.value.dur = FullClockTimingType(child.value.dur.timedelta + delay.timedelta)
+
                 update_children_timing(child.value, timebase, delay_int)
 
 
-- 
2.43.0


From ee7556f8f141fe9d6b91a7e95ca5ed0c27291b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 22/24] fix: a body that is never active stays so when it is
 retimed

---
 ebu_tt_live/node/delay.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index 653de97..8eba20b 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -144,6 +144,10 @@ def update_body_timing(body, timebase, delay_int):
     if hasattr(body, 'begin'):
         assert body.begin == None, "The body already has a begin time"
 
+    # a body that ends at the very start is never active, and a begin would contradict its end
+    if hasattr(body, 'end') and body.end != None and body.end.timedelta == timedelta(0):
+        return
+
     # we always update the begin attribute, regardless of the presence of a begin or end attribute
     if timebase == 'clock':
         delay = LimitedClockTimingType(timedelta(seconds=delay_int))
-- 
2.43.0


From 5c9018b8195194dac9929882637048f7e09c415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 23/24] fix: documents with metadata can be retimed

---
 ebu_tt_live/node/delay.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index 8eba20b..b8932e3 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -107,6 +107,10 @@ def update_children_timing(element, timebase, delay_int):
 
         for child in children:
 
+            # only body, div, p and span have times
+            if not isinstance(child.value, TimingValidationMixin):
+                continue
+
             if hasattr(child.value, 'end') and child.value.end != None:
 
                 if timebase == 'clock':
-- 
2.43.0


From 56a0cee958aa87c418c3dcfc30b4ceea3a83ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 24/24] fix: percentage font sizes deferred by body and div
 apply to the font size of the region

---
 ebu_tt_live/bindings/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 67f572b..80b6fe6 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -236,9 +236,13 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
                         # This means the default font size needs to be modulated by the percentage
                         result_font_size = default_font_size * spec_font_size
 
-                if isinstance(result_font_size, ebuttdt.PercentageFontSizeType) and defer is False:
-                    # We cannot defer any longer so now it is time to resolve it.
-                    result_font_size *= default_font_size
+                if isinstance(result_font_size, ebuttdt.PercentageFontSizeType):
+                    if region_computed_style is not None and region_computed_style.fontSize is not None:
+                        # The percentages were deferred until there is a region
+                        result_font_size *= region_computed_style.fontSize
+                    elif defer is False:
+                        # We cannot defer any longer so now it is time to resolve it.
+                        result_font_size *= default_font_size
             else:
                 # TODO: control the type here
                 result_font_size = spec_font_size
-- 
2.43.0

