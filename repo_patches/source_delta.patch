From 95010cfe85d48a3fa7a30b465e992e0b3f54edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 001/103] fix: a class with no code point matches nothing

Its pattern was the empty string, so that the element was skipped in the
rules using it instead of preventing them from matching.
---
 lgr/classes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index f054701..375260a 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -24,7 +24,8 @@ def set_to_rvalue(cp_set, as_set):
 
     If `cp_set` is empty and `as_set` is False, then the rvalue is a text
     pattern to be used in regex. As the set is empty, '[]' is not a valid
-    regex, so take care of this case here.
+    regex, so take care of this case here: an empty set matches no code point,
+    so use a pattern that never matches.
 
     :param cp_set: Code point set.
     :param as_set: If True, rvalue is a set, unicode string otherwise.
@@ -34,9 +35,9 @@ def set_to_rvalue(cp_set, as_set):
         return cp_set
     else:
         if len(cp_set) == 0:
-            # Empty set, we have to return empty string
-            # because '[]' is an invalid REGEX
-            return ''
+            # Empty set: '[]' is an invalid REGEX, and an empty pattern
+            # would match anything
+            return '(?!)'
         else:
             return text_type(cp_set)
 
-- 
2.43.0


From 45c7d71c52c81a61547689a10c80728e2f9098ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 002/103] fix: context rules whose classes contain a percent
 sign

The anchor was inserted in the pattern with %-formatting, which breaks on (or
alters) any other percent sign of the pattern, e.g. coming from a class.
---
 lgr/rule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/rule.py b/lgr/rule.py
index 12beed3..19ca030 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -164,9 +164,9 @@ class Rule(object):
                 anchor = None
             else:
                 # Format anchor - Can be a sequence.
-                # Use old-style formatting, see note in matcher.AnchorMatcher
-                pattern = pattern % {'anchor': ''.join(map(lambda c: '\\x{{{:X}}}'.format(c),
-                                                           anchor))}
+                # Do not use string formatting: '%' may be used elsewhere in the pattern (e.g. in classes)
+                pattern = pattern.replace('%(anchor)s', ''.join(map(lambda c: '\\x{{{:X}}}'.format(c),
+                                                                    anchor)))
         rule_logger.debug("Pattern for rule %s: '%s'", self, pattern)
         try:
             regex = unicode_database.compile_regex(pattern)
-- 
2.43.0


From 536ad7e9b8ea600329237f4d31a32fc76b385983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 003/103] fix: variants of labels read through a listed
 sequence without variants

---
 lgr/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 634826d..718372a 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1684,8 +1684,7 @@ class LGR(object):
         :return: list of valid prefix characters.
         """
         prefix_list = []
-        for prefix in self.repertoire.get_chars_from_prefix(label[0],
-                                                            only_variants=True):
+        for prefix in self.repertoire.get_chars_from_prefix(label[0]):
             # Ensure prefix is valid for label
             if not prefix.is_prefix_of(label):
                 continue
@@ -1787,7 +1786,7 @@ class LGR(object):
         for char in [ch for ch in same_prefix if isinstance(ch, CharSequence)]:
             # char is a sequence, if first code point of the sequence is in the LGR we need to consider it
             for cp in self.repertoire.get_chars_from_prefix(label[0]):
-                if len(cp) < len(char) and cp.is_prefix_of(label):
+                if len(cp) < len(char) and cp.is_prefix_of(label) and cp not in same_prefix:
                     same_prefix.append(cp)
 
         # Iterate through characters matching the start of the label
-- 
2.43.0


From c7113a05ed12c03f4a3580ed766a1a7a37bf116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 004/103] fix: deleting one code point of a range keeps the
 rest of the range

---
 lgr/char.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/lgr/char.py b/lgr/char.py
index ba94f83..40478a6 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -541,10 +541,39 @@ class Repertoire(object):
         assert len(cp_or_sequence), "there should be at least one char"
 
         char = CharBase.from_cp_or_sequence(cp_or_sequence)
+        if char in self:
+            # Get the actual object: it may belong to a range
+            char = self.get_char(char.cp)
         if not self._del_char(char):
             logger.error("Code point '%s' does not exist",
                          format_cp(cp_or_sequence))
             raise NotInLGR(cp_or_sequence)
+        if isinstance(char, RangeChar):
+            self._split_range(char)
+
+    def _split_range(self, deleted):
+        """
+        Keep the remainder of a range once one of its code points is deleted.
+
+        :param deleted: The RangeChar which was removed from the dictionary.
+        """
+        cp = deleted.cp[0]
+        self.ranges.remove((deleted.first_cp, deleted.last_cp))
+        for (first_cp, last_cp) in ((deleted.first_cp, cp - 1),
+                                    (cp + 1, deleted.last_cp)):
+            if first_cp > last_cp:
+                continue
+            if first_cp < last_cp:
+                self.ranges.append((first_cp, last_cp))
+            for c in range(first_cp, last_cp + 1):
+                char = self.get_char([c])
+                char.first_cp, char.last_cp = first_cp, last_cp
+                if first_cp == last_cp:
+                    # Not a range anymore
+                    self._del_char(char)
+                    self.add_char([c], comment=char.comment,
+                                  ref=char.references, tag=char.tags,
+                                  when=char.when, not_when=char.not_when)
 
     def add_range(self, first_cp, last_cp,
                   comment=None, ref=None,
-- 
2.43.0


From 943b20cabdbc384b6e757cc9dba9df572a6515c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 005/103] fix: deleting a range removes its code points from
 the tag classes

---
 lgr/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 718372a..1938543 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -575,8 +575,16 @@ class LGR(object):
             logger.error('First code point of range is greater than last')
             raise LGRApiInvalidParameter('first_cp')
 
+        tags = []
+        if (first_cp, last_cp) in self.repertoire.ranges:
+            tags = self.repertoire.get_char([first_cp]).tags
+
         self.repertoire.del_range(first_cp, last_cp)
 
+        # Remove code points from tag classes
+        for cp in range(first_cp, last_cp + 1):
+            self._del_cp_from_tag_classes(cp, tags)
+
     def expand_ranges(self):
         """
         Expand all ranges to single code points.
-- 
2.43.0


From fc9ec5e375027b1c420947b2ac7c478fed9dc082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 006/103] fix: adding a range over existing code points inserts
 all it can, or nothing

---
 lgr/core.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 1938543..4c3a936 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -501,6 +501,16 @@ class LGR(object):
                                 status.__class__.__name__, format_cp(cp))
                 raise LGRException()
 
+        # Only one status is given per code point: those which were accepted
+        # despite it may also be already present
+        for cp in codepoints[:]:
+            if cp in self.repertoire:
+                logger.error("CP '%s' is already present in repertoire",
+                             format_cp(cp))
+                if not force:
+                    raise CharAlreadyExists([cp])
+                codepoints.remove(cp)
+
         # References handling
         references = []
         for ref_id in ref if ref is not None else []:
@@ -2083,6 +2093,9 @@ class LGR(object):
         """
         logger.debug('Add code points to LGR %s', self)
 
+        if not codepoints:
+            return
+
         ranges = collapse_codepoints(codepoints)
         for (first_cp, last_cp) in ranges:
             if first_cp == last_cp:
-- 
2.43.0


From 16e8ae5d2c94988aabff85678e3b58428869430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 007/103] fix: the tags of a code point are not shared with the
 caller's list

---
 lgr/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 4c3a936..0638136 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -336,7 +336,7 @@ class LGR(object):
                 raise DuplicateReference(cp_or_sequence)
 
         # Tag handling
-        tags = tag if tag is not None else []
+        tags = list(tag) if tag is not None else []
         if len(cp_or_sequence) > 1 and len(tags) > 0:
             # From RFC7940, section 5.5.  Code Point Tagging
             # a "tag" attribute MUST NOT be present in a "char" element
@@ -535,7 +535,7 @@ class LGR(object):
                 raise DuplicateReference(first_cp)
 
         # Tag handling
-        tags = tag if tag is not None else []
+        tags = list(tag) if tag is not None else []
         # From RFC7940, section 5.5.  Code Point Tagging
         # It is an error to duplicate a value within the same "tag" attribute.
         duplicates = [t for t, count
-- 
2.43.0


From 542f2f416e60b4517b8fbc715dea0b1938366058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 008/103] fix: forcing a tagged sequence does not put its code
 points in the tag class

---
 lgr/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 0638136..8c23960 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -2121,6 +2121,9 @@ class LGR(object):
         :param cp_or_sequence: Sequence of code point to add to the classes.
         :param tags: List of tags associated to the code points.
         """
+        if not isinstance(cp_or_sequence, int) and len(cp_or_sequence) > 1:
+            # A sequence cannot be tagged, so it is not a member of any class
+            return
         for tag in tags:
             tag_classname = TAG_CLASSNAME_PREFIX + tag
             self.classes_lookup.setdefault(tag_classname,
@@ -2138,6 +2141,8 @@ class LGR(object):
         :param cp_or_sequence: Sequence of code point to remove from the classes.
         :param tags: List of tags associated to the code points.
         """
+        if not isinstance(cp_or_sequence, int) and len(cp_or_sequence) > 1:
+            return
         for tag in tags:
             tag_classname = TAG_CLASSNAME_PREFIX + tag
             if tag_classname in self.classes_lookup:
-- 
2.43.0


From 2e25ee0bbf6dc290091f04399e0806d4308d4c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 009/103] fix: deleting a reference or a tag removes all its
 uses, and none if it is refused

---
 lgr/char.py | 14 ++++++++------
 lgr/core.py |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index 40478a6..00b7717 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -847,13 +847,16 @@ class Repertoire(object):
 
         :param ref_id: The reference to remove.
         """
+        def scrub(element):
+            # Ids may be given as int, and repeated when forced
+            element.references = [r for r in element.references
+                                  if str(r) != str(ref_id)]
+
         for cp_list in self._chardict.values():
             for char in cp_list:
-                if ref_id in char.references:
-                    char.references.remove(ref_id)
+                scrub(char)
                 for variant in char.get_variants():
-                    if ref_id in variant.references:
-                        variant.references.remove(ref_id)
+                    scrub(variant)
 
     def del_tag(self, tag_id):
         """
@@ -864,8 +867,7 @@ class Repertoire(object):
         """
         for cp_list in self._chardict.values():
             for char in cp_list:
-                if tag_id in char.tags:
-                    char.tags.remove(tag_id)
+                char.tags = [t for t in char.tags if t != tag_id]
 
     def get_chars_from_prefix(self, cp, only_variants=False):
         """
diff --git a/lgr/core.py b/lgr/core.py
index 8c23960..853a0d1 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -223,8 +223,8 @@ class LGR(object):
         :param ref_id:
         :raises ReferenceNotDefined: if the ref_id is not defined.
         """
-        self.repertoire.del_reference(ref_id)
         self.reference_manager.del_reference(ref_id)
+        self.repertoire.del_reference(ref_id)
 
     def del_tag(self, tag_id):
         """
-- 
2.43.0


From c5233d0e02ce027bfb55b8938389f5d90b4ca8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 010/103] fix: deleting a range of one code point or an integer
 variant is handled

---
 lgr/char.py | 2 +-
 lgr/core.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/char.py b/lgr/char.py
index 00b7717..5d0fb2e 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -647,7 +647,7 @@ class Repertoire(object):
         ...
         NotInLGR:
         """
-        assert first_cp < last_cp, "range must be defined in order"
+        assert first_cp <= last_cp, "range must be defined in order"
 
         if (first_cp, last_cp) not in self.ranges:
             logger.error("Range '%s - %s' does not exist",
diff --git a/lgr/core.py b/lgr/core.py
index 853a0d1..dd59f2b 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -789,6 +789,7 @@ class LGR(object):
                      variant_cp, cp_or_sequence, self)
 
         cp_or_sequence = self._check_convert_cp(cp_or_sequence)
+        variant_cp = self._check_convert_cp(variant_cp)
 
         return self.repertoire.del_variant(cp_or_sequence, variant_cp,
                                            when, not_when)
-- 
2.43.0


From bdfe10ba0cf5c39786ab3cb8005a70d550100882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 011/103] fix: a range which cannot be added to a repertoire
 leaves nothing in it

---
 lgr/char.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lgr/char.py b/lgr/char.py
index 5d0fb2e..c3f9583 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -616,11 +616,15 @@ class Repertoire(object):
                          format_cp(first_cp), format_cp(last_cp))
             raise RangeAlreadyExists(first_cp, last_cp)
 
+        for cp in range(first_cp, last_cp + 1):
+            if cp in self:
+                logger.error("Char '%s' already exists", cp_to_ulabel(cp))
+                raise CharAlreadyExists((cp,))
+
         for cp in range(first_cp, last_cp + 1):
             char = RangeChar(cp, first_cp, last_cp,
                              comment=comment, ref=ref, tag=tag,
                              when=when, not_when=not_when)
-            # TODO: clean-up range on error.
             self._add_char(char)
 
         # Insert by first cp
-- 
2.43.0


From b48220ebc6a7e8721cc75cf3086215dba345acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 012/103] fix: invalid code points which are allowed in a range
 are checked against the repertoire

---
 lgr/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index dd59f2b..f5629ff 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -488,6 +488,10 @@ class LGR(object):
             elif isinstance(status, CharInvalidIdnaProperty):
                 logger.error("CP '%s' is not IDNA valid", format_cp(cp))
                 if not self.raise_on_invalid_property:
+                    if (validating_repertoire is not None
+                            and not override_repertoire and not force
+                            and not validating_repertoire.check_cp(cp)):
+                        raise NotInRepertoire(cp)
                     codepoints.append(cp)
                 elif not force:
                     raise status
-- 
2.43.0


From 190332df2c4640b81fbbc7bf8925ce1da6525573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 013/103] fix: compiled rules follow the edits of the
 definitions they are made of

---
 lgr/classes.py           |  4 ++++
 lgr/core.py              |  4 ++++
 lgr/matcher.py           |  2 ++
 lgr/memoize.py           | 16 ++++++++++++++++
 lgr/parser/xml_parser.py | 20 +++++++++++++++-----
 lgr/rule.py              | 25 ++++++++++++++++++++-----
 6 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index 375260a..0aa5b90 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -8,6 +8,7 @@ import logging
 
 from lgr import text_type
 from lgr.exceptions import (LGRFormatException, RuleError)
+from lgr.memoize import DefinitionsVersion
 from lgr.utils import format_cp_collapsed
 
 logger = logging.getLogger(__name__)
@@ -107,6 +108,7 @@ class Class(object):
         if isinstance(cp, int):
             cp = [cp]
         self.codepoints.update(cp)
+        DefinitionsVersion.bump()
 
     def del_codepoint(self, cp):
         """
@@ -122,6 +124,7 @@ class Class(object):
             cp = [cp]
         for c in cp:
             self.codepoints.discard(c)
+        DefinitionsVersion.bump()
 
     def get_pattern(self, rules_lookup, classes_lookup, unicode_database,
                     is_look_behind=False, as_set=False):
@@ -239,6 +242,7 @@ class CombinatorClass(Class):
             raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_CHILDREN_NUMBER)
 
         self._children.append(cls)
+        DefinitionsVersion.bump()
 
     def validate(self, parents, rules_lookup, classes_lookup):
         super(CombinatorClass, self).validate(parents,
diff --git a/lgr/core.py b/lgr/core.py
index f5629ff..604f307 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -26,6 +26,7 @@ from lgr.exceptions import (LGRApiInvalidParameter,
                             LGRFormatException,
                             LGRApiException,
                             LGRException)
+from lgr.memoize import DefinitionsVersion
 from lgr.metadata import Metadata, ReferenceManager
 from lgr.mixed_scripts_variant_filter import BaseMixedScriptsVariantFilter, MixedScriptsVariantFilter
 from lgr.populate import populate_lgr
@@ -237,6 +238,7 @@ class LGR(object):
         """
         self.repertoire.del_tag(tag_id)
         self.classes_lookup.pop(TAG_CLASSNAME_PREFIX + tag_id, None)
+        DefinitionsVersion.bump()
 
     def add_cp(self, cp_or_sequence,
                comment=None, ref=None,
@@ -1008,6 +1010,7 @@ class LGR(object):
                 raise exc
 
         self.rules_lookup[rule.name] = rule
+        DefinitionsVersion.bump()
         self.rules.append(rule.name)
 
     def add_action(self, action, force=False):
@@ -1039,6 +1042,7 @@ class LGR(object):
             if not force:
                 raise exc
         self.classes_lookup[cls.name] = cls
+        DefinitionsVersion.bump()
         self.classes.append(cls.name)
 
 
diff --git a/lgr/matcher.py b/lgr/matcher.py
index 686355e..cc4db43 100644
--- a/lgr/matcher.py
+++ b/lgr/matcher.py
@@ -7,6 +7,7 @@ from __future__ import unicode_literals
 import logging
 
 from lgr.exceptions import LGRFormatException
+from lgr.memoize import DefinitionsVersion
 from lgr.utils import format_cp_collapsed
 from lgr.core import PROTOCOL_LABEL_MAX_LENGTH
 
@@ -79,6 +80,7 @@ class CompoundMatcher(Matcher):
             raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_CHILDREN_NUMBER)
 
         self._children.append(child)
+        DefinitionsVersion.bump()
 
     def validate(self, parents, rules_lookup, classes_lookup):
         super(CompoundMatcher, self).validate(parents,
diff --git a/lgr/memoize.py b/lgr/memoize.py
index 17f88a9..2265c3f 100644
--- a/lgr/memoize.py
+++ b/lgr/memoize.py
@@ -4,6 +4,22 @@ memoize.py - Definition of memoize decorators.
 """
 from __future__ import unicode_literals
 import functools
+import itertools
+
+
+class DefinitionsVersion(object):
+    """
+    Version of the definitions (classes, rules, tags) used in compiled rules.
+
+    It is changed whenever one of these definitions is, in any LGR,
+    so that what was computed from them is only used as long as it is valid.
+    """
+    _counter = itertools.count(1)
+    current = 0
+
+    @classmethod
+    def bump(cls):
+        cls.current = next(cls._counter)
 
 
 class MethodAttributeMemoizer(object):
diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 38d9ff6..1a84e3f 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -12,6 +12,7 @@ Note:
 
 import logging
 from lxml import etree
+from picu.exceptions import PICUException
 
 from lgr import text_type
 from lgr.core import LGR
@@ -38,7 +39,7 @@ from lgr.classes import (Class,
                          IntersectionClass,
                          DifferenceClass,
                          SymmetricDifferenceClass)
-from lgr.exceptions import LGRException
+from lgr.exceptions import LGRException, RuleError
 from lgr.rfc7940 import LGRFormatTestResults
 from lgr.utils import format_cp
 from lgr.parser.parser import LGRParser
@@ -354,6 +355,19 @@ class XMLParser(LGRParser):
                 self.rfc7940_checks.error("parse_xml")
             child.clear()
 
+        if self._unicode_database:
+            # Patterns depend on all the definitions of the document
+            for rule in self._lgr.rules_lookup.values():
+                try:
+                    rule.precalculate_patterns(self._lgr.rules_lookup,
+                                               self._lgr.classes_lookup,
+                                               self._unicode_database)
+                except (PICUException, RuleError) as exc:
+                    logger.error("Invalid rule '%s': %s", rule.name, exc)
+                    self.rfc7940_checks.error('parse_xml')
+                    if not self.force:
+                        raise RuleError(rule.name, exc)
+
     def _parse_rule(self, elem):
         """
         Parse a <rule> element.
@@ -367,10 +381,6 @@ class XMLParser(LGRParser):
 
         for child in elem:
             self._parse_rule_helper(child, rule)
-        
-        if self._unicode_database:
-            rule.precalculate_patterns(self._lgr.rules_lookup, self._lgr.classes_lookup,
-                                    self._unicode_database)
 
         return rule
 
diff --git a/lgr/rule.py b/lgr/rule.py
index 19ca030..6c98e9b 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -12,6 +12,7 @@ from picu.exceptions import PICUException
 
 from lgr.utils import format_cp, cp_to_ulabel
 from lgr.exceptions import LGRFormatException, RuleError
+from lgr.memoize import DefinitionsVersion
 
 logger = logging.getLogger(__name__)
 rule_logger = logging.getLogger('lgr-rule-logger')
@@ -45,6 +46,14 @@ class Rule(object):
             logger.error("Cannot create a rule with both a 'name' and a 'by-ref'")
             raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
 
+    def __getstate__(self):
+        """
+        Called when pickling or copying a rule: the cached patterns hold on the original LGR.
+        """
+        odict = self.__dict__.copy()
+        odict['_pattern_cache'] = {}
+        return odict
+
     def iter_children(self):
         """
         Returns an iterator of any child element of this matcher, which could be none.
@@ -60,6 +69,7 @@ class Rule(object):
             logger.error("Cannot add child to a 'by-ref' rule")
             raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
         self.children.append(child)
+        DefinitionsVersion.bump()
 
     def get_pattern(self, rules_lookup, classes_lookup, unicode_database,
                     is_look_behind=False):
@@ -74,10 +84,14 @@ class Rule(object):
         :param is_look_behind: True if rule is used in a look-behind element.
         :return: String to be compiled to a regex.
         """
-        cache_key = (id(rules_lookup), id(classes_lookup), id(unicode_database), is_look_behind)
-        if cache_key in self._pattern_cache:
-            return self._pattern_cache[cache_key]
-        
+        # Keep hold of the objects the pattern was made from: the id of an object may be used again once it is deleted
+        sources = (rules_lookup, classes_lookup, unicode_database)
+        if is_look_behind in self._pattern_cache:
+            version, cached_sources, pattern = self._pattern_cache[is_look_behind]
+            if (version == DefinitionsVersion.current
+                    and all(a is b for a, b in zip(sources, cached_sources))):
+                return pattern
+
         if self.by_ref is not None:
             if self.by_ref not in rules_lookup:
                 logger.error("Rule cannot reference inexisting rule '%s'",
@@ -98,7 +112,8 @@ class Rule(object):
                                            unicode_database,
                                            is_look_behind))
 
-        self._pattern_cache[cache_key] = pattern_io.getvalue()
+        self._pattern_cache[is_look_behind] = (DefinitionsVersion.current, sources,
+                                               pattern_io.getvalue())
         return pattern_io.getvalue()
     
     def precalculate_patterns(self, rules_lookup, classes_lookup, unicode_database):
-- 
2.43.0


From 91cba42a1d30b47f20c579e1e89786a2e6a9096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 014/103] fix: validating does not add to the list of checks of
 the next validations

---
 lgr/validate/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/__init__.py b/lgr/validate/__init__.py
index abdbe7f..d408306 100644
--- a/lgr/validate/__init__.py
+++ b/lgr/validate/__init__.py
@@ -50,7 +50,7 @@ def validate_lgr(lgr, options):
 
     result = []
 
-    TO_RUN = CHECKS
+    TO_RUN = list(CHECKS)
     if options.get('rfc7940'):
         TO_RUN += RFC7940_CHECKS
 
-- 
2.43.0


From 15dadb83cfeff3bc6e2294ca8610d3eb03095d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 015/103] fix: the handler which collects the log of an
 evaluation is always removed

---
 lgr/core.py | 94 ++++++++++++++++++++++++++---------------------------
 1 file changed, 47 insertions(+), 47 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 604f307..fad6ac0 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1082,39 +1082,37 @@ class LGR(object):
             ch.setLevel(logging.INFO)
             rule_logger.addHandler(ch)
 
-        # Start by testing presence of code points in LGR
-        chars = []
-        if generate_chars:
-            (valid, label_parts, label_invalid_parts, chars) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
-        else:
-            (valid, label_parts, label_invalid_parts) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
-        if not valid:
-            rule_logger.error("Label '%s' is not in the LGR", format_cp(label))
-            if collect_log:
-                rule_logger.removeHandler(ch)
+        try:
+            # Start by testing presence of code points in LGR
+            chars = []
             if generate_chars:
-                return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue(), chars
+                (valid, label_parts, label_invalid_parts, chars) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
             else:
-                return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue()
+                (valid, label_parts, label_invalid_parts) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
+            if not valid:
+                rule_logger.error("Label '%s' is not in the LGR", format_cp(label))
+                if generate_chars:
+                    return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue(), chars
+                else:
+                    return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue()
+
+            # Compute label disposition by analyzing reflexive mappings
+            (disposition, action_idx) = self._test_label_disposition(label, apply_reflexive_mapping=not is_variant)
+            if disposition == INVALID_DISPOSITION:
+                rule_logger.error("Invalid disposition for reflexive mapping, "
+                                  "triggered by action #%d", action_idx)
+                if generate_chars:
+                    return False, [], [], disposition, action_idx, log_output.getvalue(), chars
+                else:
+                    return False, [], [], disposition, action_idx, log_output.getvalue()
 
-        # Compute label disposition by analyzing reflexive mappings
-        (disposition, action_idx) = self._test_label_disposition(label, apply_reflexive_mapping=not is_variant)
-        if disposition == INVALID_DISPOSITION:
-            rule_logger.error("Invalid disposition for reflexive mapping, "
-                              "triggered by action #%d", action_idx)
-            if collect_log:
-                rule_logger.removeHandler(ch)
             if generate_chars:
-                return False, [], [], disposition, action_idx, log_output.getvalue(), chars
+                return True, label, [], disposition, action_idx, log_output.getvalue(), chars
             else:
-                return False, [], [], disposition, action_idx, log_output.getvalue()
-
-        if collect_log:
-            rule_logger.removeHandler(ch)
-        if generate_chars:
-            return True, label, [], disposition, action_idx, log_output.getvalue(), chars
-        else:
-            return True, label, [], disposition, action_idx, log_output.getvalue()
+                return True, label, [], disposition, action_idx, log_output.getvalue()
+        finally:
+            if collect_log:
+                rule_logger.removeHandler(ch)
 
     def compute_label_disposition(self, label, include_invalid=False,
                                   collect_log=True, hide_mixed_script_variants=False,
@@ -1188,24 +1186,29 @@ class LGR(object):
                 ch.setLevel(logging.DEBUG)
                 rule_logger.addHandler(ch)
 
-            # 8.3.  Determining a Disposition for a Label or Variant Label
-            # Step 1
-            eligible, _, variant_invalid_parts, _, idx, _ = self.test_label_eligible(variant_cp,
-                                                                                     is_variant=variant_cp != label,
-                                                                                     collect_log=collect_log)
-            if not eligible:
-                variant_disp = INVALID_DISPOSITION
-            else:
+            try:
                 # 8.3.  Determining a Disposition for a Label or Variant Label
-                # Step 2 - 3
-                (variant_disp, idx) = self._apply_actions(variant_cp,
-                                                          disp_set,
-                                                          only_variants)
-
-                if variant_disp is None:
+                # Step 1
+                eligible, _, variant_invalid_parts, _, idx, _ = self.test_label_eligible(variant_cp,
+                                                                                         is_variant=variant_cp != label,
+                                                                                         collect_log=collect_log)
+                if not eligible:
+                    variant_disp = INVALID_DISPOSITION
+                else:
                     # 8.3.  Determining a Disposition for a Label or Variant Label
-                    # Step 4
-                    variant_disp = DEFAULT_DISPOSITION
+                    # Step 2 - 3
+                    (variant_disp, idx) = self._apply_actions(variant_cp,
+                                                              disp_set,
+                                                              only_variants)
+
+                    if variant_disp is None:
+                        # 8.3.  Determining a Disposition for a Label or Variant Label
+                        # Step 4
+                        variant_disp = DEFAULT_DISPOSITION
+            finally:
+                # Nothing is held while the caller handles the result
+                if collect_log:
+                    rule_logger.removeHandler(ch)
 
             if (variant_disp != INVALID_DISPOSITION) or include_invalid:
                 if variant_cp == label:
@@ -1220,9 +1223,6 @@ class LGR(object):
                     else:
                         yield variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue()
 
-            if collect_log:
-                rule_logger.removeHandler(ch)
-
         if not original_label:
             # TODO: already computed since label MUST be eligible
             rule_logger.debug('Add original label')
-- 
2.43.0


From b48734a8522b56e79669a72a7699d25910001ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 016/103] fix: common and inherited code points do not make a
 variant a mixed-script one

---
 lgr/mixed_scripts_variant_filter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lgr/mixed_scripts_variant_filter.py b/lgr/mixed_scripts_variant_filter.py
index c6a2ed2..1f7c04c 100644
--- a/lgr/mixed_scripts_variant_filter.py
+++ b/lgr/mixed_scripts_variant_filter.py
@@ -28,6 +28,9 @@ def get_permitted_scripts(base_scripts: Set[str]):
 
 
 class BaseMixedScriptsVariantFilter:
+    # Scripts of the code points which may be used with any script
+    IGNORED_SCRIPTS = {'Common', 'Inherited'}
+
     def __init__(self, unidb: UnicodeDatabase) -> None:
         super().__init__()
         self.unidb = unidb
@@ -41,15 +44,13 @@ class BaseMixedScriptsVariantFilter:
         return True
 
     def cp_in_base_scripts(self, cp: Tuple[ord]) -> bool:
-        return self.cp_in_scripts(cp, self.base_scripts)
+        return self.cp_in_scripts(cp, self.base_scripts | self.IGNORED_SCRIPTS)
 
     def cp_in_other_scripts(self, cp: Tuple[ord]) -> bool:
         return False
 
 
 class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
-    IGNORED_SCRIPTS = {'Common', 'Inherited'}
-
     def __init__(self, label: Tuple[int], repertoire: Repertoire, unidb: UnicodeDatabase) -> None:
         super().__init__(unidb)
         self.base_scripts: Set[str] = self._get_base_scripts(label)
-- 
2.43.0


From ff527c4c34ec8302fddf77223b8f27d28db083d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 017/103] fix: the index of a label looks at variants in front
 of what follows their own char

---
 lgr/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index fad6ac0..b1e9ee7 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1384,9 +1384,11 @@ class LGR(object):
         logger.debug("Computing index label for partition: %s", chars)
         index_label = []
         prefix = tuple()
-        suffix = tuple(c for cp in chars[1:] for c in cp.cp)
+        suffix = tuple(c for cp in chars for c in cp.cp)
         idx = 0
         for char in chars:
+            # What follows the current char
+            suffix = suffix[len(char):]
             logger.debug('Char CP: %s', format_cp(char.cp))
             # Index: smallest id of the char and its variants
             ids = [list(char.cp)]
@@ -1403,7 +1405,6 @@ class LGR(object):
             logger.debug('List of variant ids: %s', ids)
             index_label.extend(list(min(ids)))
             prefix += char.cp
-            suffix = suffix[len(char):]
             idx += len(char)
 
         logger.debug("Index label: '%s'", index_label)
-- 
2.43.0


From 8aed13de99dad8faba893edafe5ad1367ec61a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 018/103] fix: the classes with no code point can be displayed

---
 lgr/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/utils.py b/lgr/utils.py
index 4893154..f419b21 100644
--- a/lgr/utils.py
+++ b/lgr/utils.py
@@ -126,6 +126,8 @@ def collapse_codepoints(codepoints):
     result = []
     # Sort list
     codepoints = sorted(codepoints)
+    if not codepoints:
+        return result
     first_cp = codepoints[0]
     last_cp = codepoints[0]
     for cp in codepoints[1:]:
-- 
2.43.0


From 1bb2be5af55db5e58a8af6942f787ffed1eec336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 019/103] fix: an empty description can be read

---
 lgr/parser/xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 1a84e3f..957ff4e 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -202,7 +202,7 @@ class XMLParser(LGRParser):
             elif tag == DESCRIPTION_TAG:
                 # Seems to be an issue with CDATA/iterparse: https://bugs.launchpad.net/lxml/+bug/1788449
                 # For now, manually replace CRLF with LF
-                metadata.description = Description(child.text.replace('\r\n', '\n'),
+                metadata.description = Description((child.text or '').replace('\r\n', '\n'),
                                                    child.get('type', None))
             elif tag == REFERENCES_TAG:
                 for reference in child:
-- 
2.43.0


From fd34fba2f88f284204dc5e80fbfa588d813c47b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:40 +0000
Subject: [PATCH 020/103] fix: a description which cannot be in a CDATA section
 is written as text

---
 lgr/parser/xml_serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/xml_serializer.py b/lgr/parser/xml_serializer.py
index 70c08ae..8903433 100644
--- a/lgr/parser/xml_serializer.py
+++ b/lgr/parser/xml_serializer.py
@@ -100,7 +100,8 @@ def _serialize_meta(lgr, meta):
             node.attrib['type'] = metadata.description.description_type
 
         content = metadata.description.value
-        if metadata.description.description_type not in [None, 'text/plain']:
+        if metadata.description.description_type not in [None, 'text/plain'] \
+                and content is not None and ']]>' not in content:
             # Wrap content in CDATA section
             content = etree.CDATA(content)
         node.text = content
-- 
2.43.0


From bdb1a1c55734c97b8b3acc0f80c81ddaf132c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 021/103] fix: extra spaces in lists of tags, references or
 types are not items

---
 lgr/parser/xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 957ff4e..af39bba 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -572,7 +572,7 @@ def string_to_list(string):
     # This is because(''.split('') -> [''])
     result = []
     if len(string) > 0:
-        result = string.split(' ')
+        result = string.split()
 
     return result
 
-- 
2.43.0


From c019f3a106bc05ccaf0ec9d640f721b52507919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 022/103] fix: a document without the optional meta element can
 be read

---
 lgr/parser/xml_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index af39bba..f14a632 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -143,6 +143,9 @@ class XMLParser(LGRParser):
                                   tag=META_TAG,
                                   **self.PARSER_OPTIONS)
         self._fast_iter(context)
+        if self._lgr is None:
+            # The "meta" element is optional
+            self._process_meta({})
         unicode_version = self._lgr.metadata.unicode_version
         self._lgr = None
 
@@ -504,7 +507,7 @@ class XMLParser(LGRParser):
         """
         metadata_added = False
         for _, elem in context:
-            if not metadata_added and elem == DATA_TAG:
+            if not metadata_added and elem.tag == DATA_TAG:
                 # The optional "meta" element is not present since it must
                 # preceed the required data element.
                 # However, we still have to call _process_meta
@@ -513,6 +516,7 @@ class XMLParser(LGRParser):
             if elem.tag == META_TAG:
                 logger.debug("Got 'meta' element")
                 self._process_meta(elem)
+                metadata_added = True
             elif elem.tag == DATA_TAG:
                 logger.debug("Got 'data' element")
                 self._process_data(elem)
-- 
2.43.0


From 24da624a49e4ec3b18b5f865aaae079e65f4be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 023/103] fix: processing instructions are ignored as comments
 are

---
 lgr/parser/xml_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index f14a632..f08a219 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -102,10 +102,11 @@ class XMLParser(LGRParser):
     # Keep content intact, so do not strip CDATA section
     # (used in the <meta>/<description> element).
     # Do not resolve entities.
-    # Skip comment, as we do not care.
+    # Skip comments and processing instructions, as we do not care.
     PARSER_OPTIONS = {'resolve_entities': False,
                       'strip_cdata': False,
-                      'remove_comments': True}
+                      'remove_comments': True,
+                      'remove_pis': True}
 
     def __init__(self, *args, **kwargs):
         super(XMLParser, self).__init__(*args, **kwargs)
-- 
2.43.0


From 511304602a1655d76668e290707fd689d4eb2431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 024/103] fix: a document can be parsed after it was validated

---
 lgr/parser/xml_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index f08a219..f3d192e 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -133,6 +133,11 @@ class XMLParser(LGRParser):
                 # Bug in LXML, see https://bugs.launchpad.net/lxml/+bug/1526522
                 error_log = "CANNOT VALIDATE XML"
 
+        # FD is now potentially at the end of the documents,
+        # set it back to start
+        if hasattr(self.source, "seek"):
+            self.source.seek(0)
+
         self.rfc7940_checks.tested('schema')
         return error_log
 
-- 
2.43.0


From 4c8a9114690628547a1abb8e01a2d74aad8667ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 025/103] fix: empty dates, languages and Unicode versions are
 invalid ones

---
 lgr/parser/xml_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index f3d192e..7e998fa 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -197,14 +197,14 @@ class XMLParser(LGRParser):
             tag = child.tag
             logger.debug("Got '%s' element", tag)
             if tag in MAPPER:
-                MAPPER[tag](child.text)
+                MAPPER[tag](child.text or '')
                 if tag == UNICODE_VERSION_TAG:
                     unicode_version_tag_found = True
             elif tag == VERSION_TAG:
                 metadata.version = Version(child.text,
                                            child.get('comment', None))
             elif tag == LANGUAGE_TAG:
-                metadata.add_language(child.text, force=self.force)
+                metadata.add_language(child.text or '', force=self.force)
             elif tag == SCOPE_TAG:
                 metadata.scopes.append(
                     Scope(child.text, child.get('type', None)))
-- 
2.43.0


From 79185bf5bdaab7beb46c5044bd886ad8931c0c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 026/103] fix: forcing the reading skips the references and
 definitions which cannot be added

---
 lgr/parser/xml_parser.py | 64 ++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 7e998fa..4ee13b9 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -219,9 +219,16 @@ class XMLParser(LGRParser):
                     # Don't convert it to an int since ref_id may be a string
                     ref_id = reference.get('id')
                     comment = reference.get('comment', None)
-                    reference_manager.add_reference(value,
-                                                    comment=comment,
-                                                    ref_id=ref_id)
+                    try:
+                        reference_manager.add_reference(value,
+                                                        comment=comment,
+                                                        ref_id=ref_id)
+                    except LGRException as exc:
+                        logger.error("Cannot add reference '%s': %s",
+                                     ref_id, exc)
+                        self.rfc7940_checks.error('parse_xml')
+                        if not self.force:
+                            raise
                 # Since we have processed <reference> elements here, let's clean-up
                 child.clear()
             else:
@@ -343,25 +350,14 @@ class XMLParser(LGRParser):
         """
         # Keep "text" version of the rules since we don't do anything with them.
         for child in elem:
-            if child.tag in COMBINATOR_TAGS + (CLASS_TAG, ):
-                cls = self._parse_class(child)
-                self._lgr.add_class(cls, force=self.force)
-                child = drop_ns(child)
-                self._lgr.classes_xml.append(etree.tostring(child, encoding=text_type))
-            elif child.tag == RULE_TAG:
-                rule = self._parse_rule(child)
-                self._lgr.add_rule(rule, force=self.force)
-                child = drop_ns(child)
-                self._lgr.rules_xml.append(etree.tostring(child, encoding=text_type))
-            elif child.tag == ACTION_TAG:
-                action = self._parse_action(child)
-                self._lgr.add_action(action, force=self.force)
-                child = drop_ns(child)
-                self._lgr.actions_xml.append(etree.tostring(child, encoding=text_type))
-            else:
-                logger.warning("Unhandled '%s' element in <rules> section",
-                               child.tag)
-                self.rfc7940_checks.error("parse_xml")
+            try:
+                self._process_definition(child)
+            except LGRException as exc:
+                logger.error("Invalid '%s' element in <rules> section: %s",
+                             child.tag, exc)
+                self.rfc7940_checks.error('parse_xml')
+                if not self.force:
+                    raise
             child.clear()
 
         if self._unicode_database:
@@ -377,6 +373,30 @@ class XMLParser(LGRParser):
                     if not self.force:
                         raise RuleError(rule.name, exc)
 
+    def _process_definition(self, child):
+        """
+        Process one child (class, rule or action) of the <rules> element.
+        """
+        if child.tag in COMBINATOR_TAGS + (CLASS_TAG, ):
+            cls = self._parse_class(child)
+            self._lgr.add_class(cls, force=self.force)
+            child = drop_ns(child)
+            self._lgr.classes_xml.append(etree.tostring(child, encoding=text_type))
+        elif child.tag == RULE_TAG:
+            rule = self._parse_rule(child)
+            self._lgr.add_rule(rule, force=self.force)
+            child = drop_ns(child)
+            self._lgr.rules_xml.append(etree.tostring(child, encoding=text_type))
+        elif child.tag == ACTION_TAG:
+            action = self._parse_action(child)
+            self._lgr.add_action(action, force=self.force)
+            child = drop_ns(child)
+            self._lgr.actions_xml.append(etree.tostring(child, encoding=text_type))
+        else:
+            logger.warning("Unhandled '%s' element in <rules> section",
+                           child.tag)
+            self.rfc7940_checks.error("parse_xml")
+
     def _parse_rule(self, elem):
         """
         Parse a <rule> element.
-- 
2.43.0


From e52857cabff487803e012709571c822e0760f8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 027/103] fix: forced reading of a rule which refers to itself
 does not fail

---
 lgr/parser/xml_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 4ee13b9..3c918e5 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -367,7 +367,8 @@ class XMLParser(LGRParser):
                     rule.precalculate_patterns(self._lgr.rules_lookup,
                                                self._lgr.classes_lookup,
                                                self._unicode_database)
-                except (PICUException, RuleError) as exc:
+                except (PICUException, RuleError, RecursionError) as exc:
+                    # RecursionError: the rule refers to itself
                     logger.error("Invalid rule '%s': %s", rule.name, exc)
                     self.rfc7940_checks.error('parse_xml')
                     if not self.force:
-- 
2.43.0


From 3f2874e6fc78b6274937e947444fa1dcb5a4ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 028/103] fix: the checks of the data are run even if
 dispositions are not standard

---
 lgr/validate/miscellaneous.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 6af4988..f234083 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -115,7 +115,9 @@ def check_miscellaneous(lgr, options):
         'repertoire': []
     }
 
-    success = check_lgr_rules(lgr) and check_lgr_data(lgr)
+    # Run all checks, even if one fails
+    success = check_lgr_rules(lgr)
+    success = check_lgr_data(lgr) and success
 
     logger.info("Miscellaneous test done")
 
-- 
2.43.0


From 4d18c7eb25d8759fb38d834db6ecfdba5ff88a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:55 +0000
Subject: [PATCH 029/103] fix: variant types are checked when there are only
 ranges

---
 lgr/validate/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index f234083..c3ec9e9 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -36,7 +36,7 @@ def check_lgr_data(lgr):
                     logging.error("Bad variant type '%s'", t)
                     success = False
                     lgr.notify_error('data_variant_type')
-        lgr.notify_tested('data_variant_type')
+    lgr.notify_tested('data_variant_type')
 
     # Check that all chars exist in the given Unicode version
     unidb_version = lgr.unicode_database.get_unicode_version()
-- 
2.43.0


From 5aa8ab4c007881178c4e1e2b6702564165aae5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 030/103] fix: the order of references which are integers is
 checked

---
 lgr/validate/miscellaneous.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index c3ec9e9..b499657 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -76,6 +76,7 @@ def check_lgr_data(lgr):
 def check_ref_ascending(lgr, reflist):
     last = -1
     for n in reflist:
+        n = str(n)
         if not re.match(r'\d+$', n):
             # Not clear how to order references that are not integers
             break
-- 
2.43.0


From 06aea2be2995f779ed9eef61b07f41cb50112489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 031/103] fix: a version without value is not a positive
 integer

---
 lgr/validate/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/metadata.py b/lgr/validate/metadata.py
index acb89d2..81e3449 100644
--- a/lgr/validate/metadata.py
+++ b/lgr/validate/metadata.py
@@ -74,7 +74,7 @@ def check_metadata(lgr, options):
 
     # Version
     if lgr.metadata.version is not None:
-        if not re.match(r'[1-9]\d*$', lgr.metadata.version.value):
+        if not re.match(r'[1-9][0-9]*\Z', lgr.metadata.version.value or ''):
             lgr.notify_error('metadata_version_integer')
             success = False
     lgr.notify_tested('metadata_version_integer')
-- 
2.43.0


From f655808ebcccf20d7db6dc69e8ed5b2892076501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:23 +0000
Subject: [PATCH 032/103] fix: Unicode versions followed by something else are
 invalid

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 2097fa2..fe7ddaa 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -322,7 +322,7 @@ class Metadata(object):
                                     has an invalid format.
         """
 
-        if re.match(r'\d{1,}\.\d{1,}\.\d{1,}', unicode_version) is None:
+        if re.match(r'[0-9]+\.[0-9]+\.[0-9]+\Z', unicode_version) is None:
             logger.log(logging.WARNING if force else logging.ERROR,
                        "Invalid Unicode version: '%s'", unicode_version)
             self.rfc7940_checks.error('valid_unicode_version')
-- 
2.43.0


From de1e350c97a3b87e8e62a3476f04354909861422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 033/103] fix: setting invalid languages is recorded as adding
 them is

---
 lgr/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index fe7ddaa..1afca0a 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -242,12 +242,14 @@ class Metadata(object):
                 if not rfc5646.check(language):
                     logger.log(logging.WARNING if force else logging.ERROR,
                                "Invalid language: '%s'", language)
+                    self.rfc7940_checks.error('metadata_language')
                     found_error = True
             except UnicodeEncodeError:
                 # Can't skip this one
                 logger.error("Invalid non-ASCII language tag '%s'", language)
                 languages.remove(language)
 
+        self.rfc7940_checks.tested('metadata_language')
         if found_error and not force:
             raise LGRFormatException(LGRFormatException.
                                      LGRFormatReason.INVALID_LANGUAGE_TAG)
-- 
2.43.0


From 03206744dcb7520cb9b7f4c48cb74bdf66cc64ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 034/103] fix: an empty reference id or one which ends with a
 new line is invalid

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 1afca0a..3753150 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -350,7 +350,7 @@ class ReferenceManager(OrderedDict):
     so if no ref_id is given, generate one int-based id, converted to string.
     """
 
-    REFERENCE_REGEX = r'^[\-_.:0-9A-Z]*$'
+    REFERENCE_REGEX = r'^[\-_.:0-9A-Z]+\Z'
 
     def __init__(self, *args, **kwargs):
         super(ReferenceManager, self).__init__(*args, **kwargs)
-- 
2.43.0


From 8556dc1db55e6f3d885997ce17efa398443b824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 035/103] fix: deleting a reference with a negative id does not
 make the next ids negative

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 3753150..4d093e1 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -453,7 +453,7 @@ class ReferenceManager(OrderedDict):
         # Update next id if needed - only for int-based ids
         try:
             ref_id = int(ref_id)
-            if ref_id < self.next_id:
+            if 0 <= ref_id < self.next_id:
                 self.next_id = ref_id
         except ValueError:
             pass
-- 
2.43.0


From 91c1580c69226fb691eb017fccc90ca43aa8215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:05 +0000
Subject: [PATCH 036/103] fix: populating variants expands the ranges whose
 code points are variants

---
 lgr/populate/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lgr/populate/__init__.py b/lgr/populate/__init__.py
index 044a6d1..a77c2b9 100644
--- a/lgr/populate/__init__.py
+++ b/lgr/populate/__init__.py
@@ -6,6 +6,7 @@ from __future__ import unicode_literals
 
 import logging
 
+from lgr.char import RangeChar
 from lgr.exceptions import NotInLGR
 from lgr.validate.symmetry import check_symmetry
 from lgr.validate.transitivity import check_transitivity
@@ -35,6 +36,15 @@ def populate_lgr(lgr):
                                                                                          format_cp(b.cp)))
                 lgr.add_variant(b.cp, a.cp, variant_type='blocked')
 
+    # code points of a range cannot have variants, expand the ones which need some
+    for a in lgr.repertoire:
+        for b in a.get_variants():
+            char = lgr.get_char(b.cp)
+            if isinstance(char, RangeChar):
+                logger.info("Expand range '{}' to '{}' as '{}' is a variant of '{}'".format(
+                    format_cp(char.first_cp), format_cp(char.last_cp), format_cp(b.cp), format_cp(a.cp)))
+                lgr.expand_range(char.first_cp, char.last_cp)
+
     # Need to ignore rules because me nay not be able to get rules symmetry
     while not check_symmetry(lgr, {'ignore_rules': True})[0] or not check_transitivity(lgr, None)[0]:
         # symmetry
-- 
2.43.0


From 6277552370b267898be71c27a4f2212bbb3c5c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 037/103] fix: only hexadecimal digits are accepted in code
 point inputs

---
 lgr/tools/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index 2473c9a..99a7e96 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -119,11 +119,12 @@ def parse_single_cp_input(s):
         # unicode char
         return ord(s)
     else:
-        if s[:2].upper() == 'U+':
-            # U+XXXX
-            v = int(s[2:], 16)
-        else:
-            v = int(s, 16)
+        # U+XXXX or XXXX
+        digits = s[2:] if s[:2].upper() == 'U+' else s
+        if not re.match(r'[0-9A-Fa-f]+\Z', digits):
+            # int() also accepts signs, underscores, prefixes and non-ASCII digits
+            raise ValueError("invalid literal for int() with base 16: {!r}".format(digits))
+        v = int(digits, 16)
 
         # check bounds
         if v < 0 or v > 0x10FFFF:
-- 
2.43.0


From 4ceed59b9460ac63bb86ceeed8be20654220bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 038/103] fix: annotation names the action of an invalid label
 when it is the first one

---
 lgr/tools/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index 6247d92..b4982e9 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -13,7 +13,7 @@ logger = logging.getLogger(__name__)
 
 def _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
     yield "%s: %s\n" % (label, disp)
-    if not eligible and action_idx > 0:
+    if not eligible and action_idx >= 0:
         yield " Rule %s: %s\n" % (action_idx, lgr.effective_actions[action_idx])
     for cp_not_in_lgr, rules in label_invalid_parts:
         yield " Code point {cp} {reason}\n".format(
-- 
2.43.0


From f7803c0ceecfd182518f42ee45cc84e56040d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 039/103] fix: set annotation names the action of the script
 LGR which decides

---
 lgr/tools/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index b4982e9..4ee8e26 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -90,5 +90,5 @@ def lgr_set_annotate(lgr, script_lgr, set_labels_input, labels_input):
                 # TODO do we need to change disp to invalid???
                 out = '{} - {}'.format(disp, collision)
 
-            for l in _out_valid_label(lgr, label, eligible, label_invalid_parts, out, action_idx):
+            for l in _out_valid_label(script_lgr, label, eligible, label_invalid_parts, out, action_idx):
                 yield l
-- 
2.43.0


From 71581615693c503b856791649a0b78d2df38d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 040/103] fix: set annotation only reports the collisions of
 the label itself

---
 lgr/tools/annotate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index 4ee8e26..26902f1 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -82,7 +82,8 @@ def lgr_set_annotate(lgr, script_lgr, set_labels_input, labels_input):
                 if label in filtered_set:
                     collision = 'Label is in the LGR set labels'
                 indexes = get_collisions(lgr, filtered_set + [label], quiet=False)
-                if len(indexes) > 0:
+                # labels of the set may collide with each other
+                if any(label == l['label'] for collisions in indexes.values() for l in collisions):
                     collision = 'Label collides with the LGR set labels'
 
             out = disp
-- 
2.43.0


From 16d136f05e2bc02c0bc85a465e286548f3e55fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 041/103] fix: the short collision report needs no list of TLDs

---
 lgr/tools/diff_collisions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 8785e83..e4bc2af 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -545,9 +545,11 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
         else:
             label_errors.append("{}: {}".format(label, error))
 
-    tlds, errors = _read_tlds(tlds_input, lgr.unicode_database)
-    for err in errors:
-        yield err
+    tlds = set()
+    if tlds_input:
+        tlds, errors = _read_tlds(tlds_input, lgr.unicode_database)
+        for err in errors:
+            yield err
 
     yield "# Collisions #\n\n"
     has_one = False
-- 
2.43.0


From 872e0ddf7ea216d9081797fe9989489a898ce47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 042/103] fix: a collision between labels is reported once

---
 lgr/tools/diff_collisions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index e4bc2af..cda1793 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -266,9 +266,9 @@ def _get_new_variants(new_labels, old_labels):
 
 def dump_collisions(colliding1, cb, colliding2=None, **kwargs):
     idx = 0
-    list2 = colliding2
     for l1 in colliding1:
         idx += 1
+        list2 = colliding2
         if list2 is None:
             # do not display the same collision permuted
             list2 = colliding1[idx:]
-- 
2.43.0


From 1ac9c3b79c3395f946f7a45bc446bbeb504fe8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 043/103] fix: RFC3743 code points may be followed by a space

---
 lgr/parser/rfc3743_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index d295f09..c27b730 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -168,7 +168,7 @@ def parse_char(char):
     """
     codepoints = []
     for match in UNICODE_CODEPOINT_RE.finditer(char):
-        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split(' ')]
+        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split()]
         references = match.group('references')
 
         ref_list = []
-- 
2.43.0


From 3fff858dd7e72bb1885998483933283bd5267954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 044/103] fix: variants of an invalid code point are not given
 to the one of another line

---
 lgr/parser/rfc3743_parser.py | 1 +
 lgr/parser/rfc4290_parser.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index c27b730..2ee785b 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -100,6 +100,7 @@ class RFC3743Parser(LGRParser):
                 self._lgr.add_cp(codepoints, ref=references, force=self.force)
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char, line_num)
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
diff --git a/lgr/parser/rfc4290_parser.py b/lgr/parser/rfc4290_parser.py
index b2a1fc5..6da34db 100644
--- a/lgr/parser/rfc4290_parser.py
+++ b/lgr/parser/rfc4290_parser.py
@@ -61,6 +61,7 @@ class RFC4290Parser(LGRParser):
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char,
                              line_num)
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
-- 
2.43.0


From ae6c4d7fb699d0d8f9fae29695fe692d22bda362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 045/103] fix: RFC3743 reference and version numbers may have
 several digits

---
 lgr/parser/rfc3743_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index 2ee785b..fdfa89a 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -15,13 +15,13 @@ from lgr.utils import format_cp
 
 logger = logging.getLogger(__name__)
 
-REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d)\s+(?P<value>[^#]+)\s*(?:#\s*(?P<comment>.*))?')
-VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
+REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d+)\s+(?P<value>[^#]+)\s*(?:#\s*(?P<comment>.*))?')
+VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d+)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
 
 # RFC3743 defines a code point without the "U+" notation,
 # however some files use the "U+" prefix.
 # Try to support both.
-UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d(,\d)*)\))?')
+UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d+(,\d+)*)\))?')
 
 
 class RFC3743Parser(LGRParser):
-- 
2.43.0


From 0ca6a07eea71e17945ebf0d8032629401bff4388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 046/103] fix: the date of an RFC3743 table is a valid date in
 the LGR

---
 lgr/parser/rfc3743_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index fdfa89a..3121a95 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -76,9 +76,10 @@ class RFC3743Parser(LGRParser):
                 comment = version.group('comment')
 
                 try:
+                    # dates are written as YYYYMMDD
+                    self._lgr.metadata.set_date('-'.join((date[:4], date[4:6], date[6:])))
                     self._lgr.metadata.version = Version(version_no,
                                                          comment=comment)
-                    self._lgr.metadata.date = date
                 except LGRException:
                     logger.error("Invalid version '%s' on line %d",
                                  line, line_num)
-- 
2.43.0


From 67f7c963b63b526cb993a7fb20b286085936371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 047/103] fix: RFC4290 code points may be surrounded by spaces

---
 lgr/parser/rfc4290_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/rfc4290_parser.py b/lgr/parser/rfc4290_parser.py
index 6da34db..59797e3 100644
--- a/lgr/parser/rfc4290_parser.py
+++ b/lgr/parser/rfc4290_parser.py
@@ -100,7 +100,7 @@ def parse_char(char):
     codepoints = []
     chars = char.split('-')
     for c in chars:
-        codepoint_re = UNICODE_CODEPOINT_RE.match(c)
+        codepoint_re = UNICODE_CODEPOINT_RE.match(c.strip())
         if codepoint_re is not None:
             codepoints.append(int(codepoint_re.group(1), 16))
         else:
-- 
2.43.0


From 19b45168e388c5aa5cf24ecece56939b4c4d0385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 048/103] fix: values beyond the last code point are refused in
 text tables

---
 lgr/parser/line_parser.py    | 5 +++++
 lgr/parser/rfc3743_parser.py | 3 +++
 lgr/parser/rfc4290_parser.py | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/lgr/parser/line_parser.py b/lgr/parser/line_parser.py
index cf4f15a..bc29ed5 100644
--- a/lgr/parser/line_parser.py
+++ b/lgr/parser/line_parser.py
@@ -6,6 +6,7 @@ from __future__ import unicode_literals
 import logging
 import io
 import re
+import sys
 
 from lgr.exceptions import LGRException
 from lgr.utils import format_cp
@@ -51,6 +52,10 @@ class LineParser(LGRParser):
                     logger.error("Invalid code point '%s' at line %d",
                                  cp, line_num)
 
+            if any(cp > sys.maxunicode for cp in codepoints):
+                logger.error("Invalid code point in '%s' at line %d", line, line_num)
+                continue
+
             try:
                 self._lgr.add_cp(codepoints)
             except LGRException as exc:
diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index 3121a95..3ee4c81 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -7,6 +7,7 @@ from __future__ import unicode_literals
 import logging
 import os
 import re
+import sys
 
 from lgr.exceptions import LGRException
 from lgr.metadata import Version
@@ -171,6 +172,8 @@ def parse_char(char):
     codepoints = []
     for match in UNICODE_CODEPOINT_RE.finditer(char):
         cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split()]
+        if max(cp_or_sequence) > sys.maxunicode:
+            raise ValueError(match.group('sequence'))
         references = match.group('references')
 
         ref_list = []
diff --git a/lgr/parser/rfc4290_parser.py b/lgr/parser/rfc4290_parser.py
index 59797e3..7501f4f 100644
--- a/lgr/parser/rfc4290_parser.py
+++ b/lgr/parser/rfc4290_parser.py
@@ -7,6 +7,7 @@ from __future__ import unicode_literals
 import logging
 import os
 import re
+import sys
 
 from lgr.exceptions import LGRException
 from lgr.parser.parser import LGRParser
@@ -103,6 +104,8 @@ def parse_char(char):
         codepoint_re = UNICODE_CODEPOINT_RE.match(c.strip())
         if codepoint_re is not None:
             codepoints.append(int(codepoint_re.group(1), 16))
+            if codepoints[-1] > sys.maxunicode:
+                raise ValueError(c)
         else:
             raise ValueError(c)
 
-- 
2.43.0


From 9d722e3696d921e1df1f3ef09970d2514e9c8774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 049/103] fix: code points in a comment at the end of a line
 are ignored

---
 lgr/parser/line_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/line_parser.py b/lgr/parser/line_parser.py
index bc29ed5..ecc4236 100644
--- a/lgr/parser/line_parser.py
+++ b/lgr/parser/line_parser.py
@@ -45,7 +45,7 @@ class LineParser(LGRParser):
                 continue
 
             codepoints = []
-            for cp in UNICODE_CODEPOINT_RE.finditer(line):
+            for cp in UNICODE_CODEPOINT_RE.finditer(line.split('#')[0]):
                 try:
                     codepoints.append(int(cp.group(1), 16))
                 except ValueError:
-- 
2.43.0


From 0b8bce3afea3c6f8e915d3eaf1b0a975fbb9f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 050/103] fix: tables with carriage returns as line separators
 are read from bytes

---
 lgr/parser/heuristic_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/heuristic_parser.py b/lgr/parser/heuristic_parser.py
index d8401e9..12c144c 100644
--- a/lgr/parser/heuristic_parser.py
+++ b/lgr/parser/heuristic_parser.py
@@ -67,7 +67,7 @@ class HeuristicParser(LGRParser):
             if not is_str:
                 if hasattr(rule_file, "seek"):
                     rule_file.seek(0)
-                return io.StringIO(rule_file.read().decode('utf-8'))
+                return io.StringIO(rule_file.read().decode('utf-8'), newline=None)
             if hasattr(self.source, "seek"):
                 self.source.seek(0)
             return self.source
-- 
2.43.0


From 4eb3abd418ca1db1dbd03a2255d65c81d1153700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 051/103] fix: the value of an RFC3743 reference ends before
 the spaces of its comment

---
 lgr/parser/rfc3743_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index 3ee4c81..7dacab5 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -60,7 +60,7 @@ class RFC3743Parser(LGRParser):
             reference = REFERENCE_RE.match(line)
             if reference is not None:
                 ref_id = reference.group('ref_id')
-                value = reference.group('value')
+                value = reference.group('value').strip()
                 comment = reference.group('comment')
                 try:
                     self._lgr.add_reference(value, ref_id=ref_id,
-- 
2.43.0


From 3dbb8fc5b5a812d385c363e25b6170d1f2478b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 052/103] fix: union keeps the variants of code points which
 are only in the first LGR

---
 lgr/tools/compare/union.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 887f53b..8542bc1 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -332,6 +332,11 @@ def union_lgrs(lgr1, lgr2):
                    tag=char.tags,
                    when=char.when, not_when=char.not_when)
 
+        for v in char.get_variants():
+            lgr.add_variant(char.cp, v.cp, variant_type=v.type,
+                            when=v.when, not_when=v.not_when,
+                            comment=v.comment)
+
     for cp in set.difference(second_cps, first_cps):
         char = lgr2.get_char(cp)
 
-- 
2.43.0


From 6826c204d732aa9f5cbbe717ca6fb64526337a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 053/103] fix: union keeps the version and description which
 are only in the second LGR

---
 lgr/tools/compare/union.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 8542bc1..33e7fc8 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -88,11 +88,9 @@ def union_metadata(first, second):
 
     output = Metadata()
 
-    if first.version is not None:
-        output.version = union_version(first.version, second.version)
-    if first.description is not None:
-        output.description = union_description(first.description,
-                                               second.description)
+    output.version = union_version(first.version, second.version)
+    output.description = union_description(first.description,
+                                           second.description)
 
     output.scopes = set.union(set(first.scopes), set(first.scopes))
     output.languages = set.union(set(first.languages),
-- 
2.43.0


From 29c712f5dd49c36e2b0555e3d318cfa2e942ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 054/103] fix: union and intersection take the scopes of both
 LGRs and keep the order of metadata, references and tags

---
 lgr/tools/compare/intersect.py | 15 +++++++--------
 lgr/tools/compare/union.py     | 17 ++++++++---------
 lgr/tools/compare/utils.py     | 26 ++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 3bbbc69..346e389 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -8,7 +8,7 @@ import copy
 import logging
 from datetime import date
 
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, intersect_lists
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -85,9 +85,8 @@ def intersect_metadata(first, second):
     output.description = intersect_description(first.description,
                                                second.description)
 
-    output.scopes = set.intersection(set(first.scopes), set(first.scopes))
-    output.languages = set.intersection(set(first.languages),
-                                        set(second.languages))
+    output.scopes = intersect_lists(first.scopes, second.scopes)
+    output.languages = intersect_lists(first.languages, second.languages)
 
     output.date = date.today().isoformat()
     output.validity_start = compare_objects(first.validity_start,
@@ -112,12 +111,12 @@ def intersect_reference_manager(first, second):
     :param second: The other object to intersect with.
     :return: A new reference manager object.
     """
-    first_ref = {r['value'] for r in first.values()}
-    second_ref = {r['value'] for r in second.values()}
+    first_ref = [r['value'] for r in first.values()]
+    second_ref = [r['value'] for r in second.values()]
 
     output = ReferenceManager()
 
-    for ref in set.intersection(first_ref, second_ref):
+    for ref in intersect_lists(first_ref, second_ref):
         output.add_reference(ref)
 
     return output
@@ -133,7 +132,7 @@ def intersect_char(lgr, first, second):
     """
     comment = let_user_choose(first.comment, second.comment)
 
-    tags = list(set.intersection(set(first.tags), set(second.tags)))
+    tags = intersect_lists(first.tags, second.tags)
 
     lgr.add_cp(first.cp, comment=comment, tag=tags)
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 33e7fc8..4f4a494 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -9,7 +9,7 @@ import logging
 from datetime import date
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, union_lists
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
@@ -92,9 +92,8 @@ def union_metadata(first, second):
     output.description = union_description(first.description,
                                            second.description)
 
-    output.scopes = set.union(set(first.scopes), set(first.scopes))
-    output.languages = set.union(set(first.languages),
-                                 set(second.languages))
+    output.scopes = union_lists(first.scopes, second.scopes)
+    output.languages = union_lists(first.languages, second.languages)
 
     output.date = date.today().isoformat()
     output.validity_start = compare_objects(first.validity_start,
@@ -119,12 +118,12 @@ def union_reference_manager(first, second):
     :param second: The other object to union.
     :return: A new reference manager object.
     """
-    first_ref = {r['value'] for r in first.values()}
-    second_ref = {r['value'] for r in second.values()}
+    first_ref = [r['value'] for r in first.values()]
+    second_ref = [r['value'] for r in second.values()]
 
     output = ReferenceManager()
 
-    for ref in set.union(first_ref, second_ref):
+    for ref in union_lists(first_ref, second_ref):
         output.add_reference(ref)
 
     return output
@@ -140,11 +139,11 @@ def union_char(lgr, first, second):
     """
     comment = let_user_choose(first.comment, second.comment)
 
-    tags = list(set.union(set(first.tags), set(second.tags)))
+    tags = union_lists(first.tags, second.tags)
 
     lgr.add_cp(first.cp, comment=comment, tag=tags)
 
-    for v in set.union(set(first.get_variants()), set(second.get_variants())):
+    for v in union_lists(first.get_variants(), second.get_variants()):
         lgr.add_variant(first.cp, v.cp, variant_type=v.type,
                         when=v.when, not_when=v.not_when,
                         comment=v.comment)
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index ded6670..439ea0b 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -24,6 +24,32 @@ def display_variant(variant):
         variant.comment)
 
 
+def union_lists(first, second):
+    """
+    Union two lists of objects.
+
+    :param first: First list.
+    :param second: Other list.
+    :return: The distinct objects of both lists, in order.
+    """
+    output = []
+    for item in list(first) + list(second):
+        if item not in output:
+            output.append(item)
+    return output
+
+
+def intersect_lists(first, second):
+    """
+    Intersect two lists of objects.
+
+    :param first: First list.
+    :param second: Other list.
+    :return: The distinct objects which are in both lists, in the order of the first.
+    """
+    return union_lists((item for item in first if item in second), [])
+
+
 def compare_objects(first, second, cmp_fct):
     """
     Compare two objects, possibly None.
-- 
2.43.0


From 9ea8bf494d1d25cfce85b314c08b6068f4bc55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 055/103] fix: union and intersection keep the latest Unicode
 version, 10.0.0 being after 6.3.0

---
 lgr/tools/compare/intersect.py |  4 ++--
 lgr/tools/compare/union.py     |  4 ++--
 lgr/tools/compare/utils.py     | 10 ++++++++++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 346e389..ebe364f 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -8,7 +8,7 @@ import copy
 import logging
 from datetime import date
 
-from lgr.tools.compare.utils import compare_objects, intersect_lists
+from lgr.tools.compare.utils import compare_objects, latest_version, intersect_lists
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -98,7 +98,7 @@ def intersect_metadata(first, second):
 
     output.unicode_version = compare_objects(first.unicode_version,
                                              second.unicode_version,
-                                             max)
+                                             latest_version)
 
     return output
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 4f4a494..9c4d1fd 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -9,7 +9,7 @@ import logging
 from datetime import date
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects, union_lists
+from lgr.tools.compare.utils import compare_objects, latest_version, union_lists
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
@@ -105,7 +105,7 @@ def union_metadata(first, second):
 
     output.unicode_version = compare_objects(first.unicode_version,
                                              second.unicode_version,
-                                             max)
+                                             latest_version)
 
     return output
 
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index 439ea0b..7188d8c 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -50,6 +50,16 @@ def intersect_lists(first, second):
     return union_lists((item for item in first if item in second), [])
 
 
+def latest_version(first, second):
+    """
+    Return the latest of two versions of Unicode.
+    """
+    def key(version):
+        return [int(n) if n.isdigit() else -1 for n in version.split('.')]
+
+    return second if key(second) > key(first) else first
+
+
 def compare_objects(first, second, cmp_fct):
     """
     Compare two objects, possibly None.
-- 
2.43.0


From 1dc4322e4f4e8883d722c3cd3ebf7bc09141912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 056/103] fix: union and intersection keep the conditions which
 code points have in both LGRs

---
 lgr/tools/compare/intersect.py | 7 ++++++-
 lgr/tools/compare/union.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index ebe364f..1496ef9 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -134,7 +134,12 @@ def intersect_char(lgr, first, second):
 
     tags = intersect_lists(first.tags, second.tags)
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    # Conditions which are not the same cannot be combined
+    when = first.when if first.when == second.when else None
+    not_when = first.not_when if first.not_when == second.not_when else None
+
+    lgr.add_cp(first.cp, comment=comment, tag=tags,
+               when=when, not_when=not_when)
 
     variant_first = {(v.cp, v.when, v.not_when) for v in first.get_variants()}
     variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 9c4d1fd..ffe0065 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -141,7 +141,12 @@ def union_char(lgr, first, second):
 
     tags = union_lists(first.tags, second.tags)
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    # Conditions which are not the same cannot be combined
+    when = first.when if first.when == second.when else None
+    not_when = first.not_when if first.not_when == second.not_when else None
+
+    lgr.add_cp(first.cp, comment=comment, tag=tags,
+               when=when, not_when=not_when)
 
     for v in union_lists(first.get_variants(), second.get_variants()):
         lgr.add_variant(first.cp, v.cp, variant_type=v.type,
-- 
2.43.0


From 99ef437d57346f305dec5629947532ebe0940911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 057/103] fix: intersection keeps the type which variants have
 in both LGRs

---
 lgr/tools/compare/intersect.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 1496ef9..ba2e90c 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -141,11 +141,14 @@ def intersect_char(lgr, first, second):
     lgr.add_cp(first.cp, comment=comment, tag=tags,
                when=when, not_when=not_when)
 
-    variant_first = {(v.cp, v.when, v.not_when) for v in first.get_variants()}
-    variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
-
-    for v in set.intersection(variant_first, variant_second):
-        lgr.add_variant(first.cp, v[0], when=v[1], not_when=v[2])
+    # Variants are equal when their code points and conditions are the same
+    variant_second = list(second.get_variants())
+
+    for v in intersect_lists(first.get_variants(), variant_second):
+        other = variant_second[variant_second.index(v)]
+        lgr.add_variant(first.cp, v.cp,
+                        variant_type=v.type if v.type == other.type else None,
+                        when=v.when, not_when=v.not_when)
 
 
 def intersect_actions(lgr1, lgr2):
-- 
2.43.0


From b7719d5634086dd9280ef6d13a117eb2217fa0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 058/103] fix: union and intersection keep the order of actions
 and an XML for each of them

---
 lgr/tools/compare/intersect.py |  4 +++-
 lgr/tools/compare/union.py     | 12 +++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index ba2e90c..14af903 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -164,7 +164,9 @@ def intersect_actions(lgr1, lgr2):
     # Intersection of actions:
     # - keep same actions.
 
-    actions = list(set.intersection(set(lgr1.actions), set(lgr2.actions)))
+    # - in the order of the first LGR, the first which applies being decisive.
+
+    actions = intersect_lists(lgr1.actions, lgr2.actions)
     actions_xml = [lgr1.actions_xml[lgr1.actions.index(a)] for a in actions]
 
     return actions, actions_xml
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index ffe0065..a27a9d8 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -169,15 +169,13 @@ def union_actions(lgr1, lgr2):
     # Need OrderedDict instead of sets to keep order
 
     actions = OrderedDict()
-    actions_xml = OrderedDict()
 
-    actions.update(OrderedDict.fromkeys(lgr1.actions))
-    actions.update(OrderedDict.fromkeys(lgr2.actions))
+    for lgr in (lgr1, lgr2):
+        for action, action_xml in zip(lgr.actions, lgr.actions_xml):
+            # The XML of equal actions might not be the same
+            actions.setdefault(action, action_xml)
 
-    actions_xml.update(OrderedDict.fromkeys(lgr1.actions_xml))
-    actions_xml.update(OrderedDict.fromkeys(lgr2.actions_xml))
-
-    return list(actions.keys()), list(actions_xml.keys())
+    return list(actions.keys()), list(actions.values())
 
 
 def union_rules(lgr1, lgr2):
-- 
2.43.0


From efbba18615461865e3e1cf62d0a04c43067bbab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 059/103] fix: union and intersection rename conflicting rules
 and classes wherever they are used, and nothing else

---
 lgr/tools/compare/intersect.py | 91 ++++++++++++++------------------
 lgr/tools/compare/union.py     | 96 +++++++++-------------------------
 lgr/tools/compare/utils.py     | 92 ++++++++++++++++++++++++++++++++
 3 files changed, 154 insertions(+), 125 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 14af903..af7ad2d 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -6,9 +6,10 @@ from __future__ import unicode_literals
 
 import copy
 import logging
+from collections import OrderedDict
 from datetime import date
 
-from lgr.tools.compare.utils import compare_objects, latest_version, intersect_lists
+from lgr.tools.compare.utils import compare_objects, intersect_lists, latest_version, rename_conflicts
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -172,79 +173,62 @@ def intersect_actions(lgr1, lgr2):
     return actions, actions_xml
 
 
-def intersect_rules(lgr1, lgr2):
+def _intersect_definitions(lgrs, renamed, names, definitions):
+    """
+    Intersect two lists of named definitions.
+
+    :param lgrs: The LGRs.
+    :param renamed: The LGRs, once the conflicts are renamed.
+    :param names: The attribute of LGRs for the names.
+    :param definitions: The attribute of LGRs for the XML definitions.
+    :return: (list of names, list of XML definitions)
+    """
+    common = intersect_lists(*[getattr(lgr, names) for lgr in lgrs])
+    output = OrderedDict()
+    for lgr, new in zip(lgrs, renamed):
+        for name, new_name, xml in zip(getattr(lgr, names), getattr(new, names), getattr(new, definitions)):
+            if name in common:
+                output.setdefault(new_name, xml)
+
+    return list(output.keys()), list(output.values())
+
+
+def intersect_rules(lgr1, lgr2, renamed):
     """
     Intersect two rule lists.
 
     :param lgr1: First LGR to intersect with.
     :param lgr2: Second LGR to intersect with.
+    :param renamed: The LGRs, once the conflicts are renamed.
     :return: (list of rules, list of XML rules)
     """
     logger.debug("Intersection of rules")
 
     # Intersection of rules:
     # - keep rules with same name in both LGRs.
-    # - append both elements to final LGR (rename using _1 and _2).
-
-    rules = []
-    rules_xml = []
-
-    for rule_name in frozenset(lgr1.rules) & frozenset(lgr2.rules):
-        rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
-        rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
-
-        if rule_1 == rule_2:
-            rules_xml.append(rule_1)
-            rules.append(rule_name)
-            continue
+    # - append both elements to final LGR (already renamed using _1 and _2,
+    #   unless they are the same).
 
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
+    return _intersect_definitions((lgr1, lgr2), renamed, 'rules', 'rules_xml')
 
-        rules_xml.append(rule_1)
-        rules_xml.append(rule_2)
 
-        rules.append(rule_name + '_1')
-        rules.append(rule_name + '_2')
-
-    return rules, rules_xml
-
-
-def intersect_classes(lgr1, lgr2):
+def intersect_classes(lgr1, lgr2, renamed):
     """
     Intersect two class lists.
 
     :param lgr1: First LGR to intersect with.
     :param lgr2: Second LGR to intersect with.
+    :param renamed: The LGRs, once the conflicts are renamed.
     :return: (list of classes, list of XML classes)
     """
     logger.debug("Intersection of classes")
 
     # Intersection of classes:
     # - keep classes with same name in both LGRs.
-    # - append both elements to final LGR (rename using _1 and _2).
-
-    classes = []
-    classes_xml = []
-    for class_name in frozenset(lgr1.classes) & frozenset(lgr2.classes):
-        class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
-        class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
-
-        if class_1 == class_2:
-            classes_xml.append(class_1)
-            classes.append(class_name)
-            continue
+    # - append both elements to final LGR (already renamed using _1 and _2,
+    #   unless they are the same).
 
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
-
-        classes_xml.append(class_1)
-        classes_xml.append(class_2)
-
-        classes.append(class_name + '_1')
-        classes.append(class_name + '_2')
-
-    return classes, classes_xml
+    return _intersect_definitions((lgr1, lgr2), renamed, 'classes', 'classes_xml')
 
 
 def intersect_lgrs(lgr1, lgr2):
@@ -262,6 +246,8 @@ def intersect_lgrs(lgr1, lgr2):
     lgr1.expand_ranges()
     lgr2.expand_ranges()
 
+    renamed = rename_conflicts(lgr1, lgr2)
+
     # Note: We need to create a copy (copy.deepcopy) for some elements
     # otherwise they could reference the original objects.
 
@@ -278,20 +264,19 @@ def intersect_lgrs(lgr1, lgr2):
 
     # No need to copy char, they are new objects
     for cp in set.intersection(first_cps, second_cps):
-        char1 = lgr1.get_char(cp)
-        char2 = lgr2.get_char(cp)
+        char1, char2 = [r.get_char(cp) for r in renamed]
 
         intersect_char(lgr, char1, char2)
 
-    (actions, actions_xml) = intersect_actions(lgr1, lgr2)
+    (actions, actions_xml) = intersect_actions(*renamed)
     lgr.actions = copy.deepcopy(actions)
     lgr.actions_xml = actions_xml
 
-    (rules, rules_xml) = intersect_rules(lgr1, lgr2)
+    (rules, rules_xml) = intersect_rules(lgr1, lgr2, renamed)
     lgr.rules = copy.deepcopy(rules)
     lgr.rules_xml = rules_xml
 
-    (classes, classes_xml) = intersect_classes(lgr1, lgr2)
+    (classes, classes_xml) = intersect_classes(lgr1, lgr2, renamed)
     lgr.classes = copy.deepcopy(classes)
     lgr.classes_xml = classes_xml
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index a27a9d8..0c7aacb 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -9,7 +9,7 @@ import logging
 from datetime import date
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects, latest_version, union_lists
+from lgr.tools.compare.utils import compare_objects, latest_version, rename_conflicts, union_lists
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
@@ -178,6 +178,19 @@ def union_actions(lgr1, lgr2):
     return list(actions.keys()), list(actions.values())
 
 
+def _union_definitions(first, first_xml, second, second_xml):
+    """
+    Union two lists of named definitions, once the conflicts are renamed.
+
+    :return: (list of names, list of XML definitions)
+    """
+    definitions = OrderedDict(zip(first, first_xml))
+    for name, xml in zip(second, second_xml):
+        definitions.setdefault(name, xml)
+
+    return list(definitions.keys()), list(definitions.values())
+
+
 def union_rules(lgr1, lgr2):
     """
     Union two rule lists.
@@ -191,42 +204,11 @@ def union_rules(lgr1, lgr2):
     # Union of rules:
     # - Keep rules from both LGRs.
     # - If rule with same name in both LGRs:
-    #   - Append both elements to final LGR (rename using _1 and _2).
-
-    rules = []
-    rules_xml = []
-
-    rules_lgr1 = frozenset(lgr1.rules)
-    rules_lgr2 = frozenset(lgr2.rules)
-
-    # Compute intersection of rules
-    for rule_name in rules_lgr1 & rules_lgr2:
-        rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
-        rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
-
-        if rule_1 == rule_2:
-            rules_xml.append(rule_1)
-            rules.append(rule_name)
-            continue
-
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
-
-        rules_xml.append(rule_1)
-        rules_xml.append(rule_2)
-
-        rules.append(rule_name + '_1')
-        rules.append(rule_name + '_2')
+    #   - Append both elements to final LGR (already renamed using _1 and _2,
+    #     unless they are the same).
 
-    for rule_name in rules_lgr1 - rules_lgr2:
-        rules_xml.append(lgr1.rules_xml[lgr1.rules.index(rule_name)])
-        rules.append(rule_name)
-
-    for rule_name in rules_lgr2 - rules_lgr1:
-        rules_xml.append(lgr2.rules_xml[lgr2.rules.index(rule_name)])
-        rules.append(rule_name)
-
-    return rules, rules_xml
+    return _union_definitions(lgr1.rules, lgr1.rules_xml,
+                              lgr2.rules, lgr2.rules_xml)
 
 
 def union_classes(lgr1, lgr2):
@@ -242,43 +224,11 @@ def union_classes(lgr1, lgr2):
     # Union of classes:
     # - Keep classes from both LGRs.
     # - If class with same name in both LGRs:
-    #   - Append both elements to final LGR (rename using _1 and _2).
-
-    classes = []
-    classes_xml = []
-
-    classes_lgr1 = frozenset(lgr1.classes)
-    classes_lgr2 = frozenset(lgr2.classes)
-
-    # Compute intersection of classes
-    for class_name in classes_lgr1 & classes_lgr2:
-        class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
-        class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
-
-        if class_1 == class_2:
-            classes_xml.append(class_1)
-            classes.append(class_name)
-            continue
+    #   - Append both elements to final LGR (already renamed using _1 and _2,
+    #     unless they are the same).
 
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
-
-        classes_xml.append(class_1)
-        classes_xml.append(class_2)
-
-        classes.append(class_name + '_1')
-        classes.append(class_name + '_2')
-
-    # Append all other classes
-    for class_name in classes_lgr1 - classes_lgr2:
-        classes_xml.append(lgr1.classes_xml[lgr1.classes.index(class_name)])
-        classes.append(class_name)
-
-    for class_name in classes_lgr2 - classes_lgr1:
-        classes_xml.append(lgr2.classes_xml[lgr2.classes.index(class_name)])
-        classes.append(class_name)
-
-    return classes, classes_xml
+    return _union_definitions(lgr1.classes, lgr1.classes_xml,
+                              lgr2.classes, lgr2.classes_xml)
 
 
 def union_lgrs(lgr1, lgr2):
@@ -298,6 +248,8 @@ def union_lgrs(lgr1, lgr2):
     lgr1.expand_ranges()
     lgr2.expand_ranges()
 
+    lgr1, lgr2 = rename_conflicts(lgr1, lgr2)
+
     # Note: We need to create a copy (copy.deepcopy) for some elements
     # otherwise they could reference the original objects.
 
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index 7188d8c..6a51df1 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -2,8 +2,12 @@
 """
 utils.py - Definition of utility functions.
 """
+import copy
 from collections import namedtuple
 
+from lxml import etree
+
+from lgr import text_type
 from lgr.utils import format_cp
 
 
@@ -50,6 +54,94 @@ def intersect_lists(first, second):
     return union_lists((item for item in first if item in second), [])
 
 
+def _conflicts(lgr1, lgr2):
+    """
+    Find the definitions with the same name in both LGRs which are not the same.
+
+    :return: The names of the rules, and the names of the classes.
+    """
+    conflicts = []
+    references = []
+    for names, definitions in (('rules', 'rules_xml'), ('classes', 'classes_xml')):
+        first = dict(zip(getattr(lgr1, names), getattr(lgr1, definitions)))
+        second = dict(zip(getattr(lgr2, names), getattr(lgr2, definitions)))
+        common = [name for name in first if name in second]
+        conflicts.append({name for name in common if first[name].strip() != second[name].strip()})
+        references.append({name: [(elem.tag, elem.get('by-ref'))
+                                  for elem in etree.fromstring(first[name]).iter()] for name in common})
+    rules, classes = conflicts
+
+    # So are those which refer to them
+    found = True
+    while found:
+        found = False
+        for names, refs in zip(conflicts, references):
+            for name, elements in refs.items():
+                if name not in names and any(ref in (rules if tag == 'rule' else classes) for tag, ref in elements):
+                    names.add(name)
+                    found = True
+
+    return rules, classes
+
+
+def _suffix_definitions(lgr, suffix, rules, classes):
+    """
+    Add a suffix to the name of some rules and classes, everywhere the LGR uses them.
+
+    :param lgr: The LGR to update.
+    :param suffix: The suffix.
+    :param rules: The names of the rules to rename.
+    :param classes: The names of the classes to rename.
+    """
+    def rename(name):
+        return name + suffix if name in rules else name
+
+    def rename_xml(xml):
+        root = etree.fromstring(xml)
+        for elem in root.iter(etree.Element):
+            names = rules if elem.tag == 'rule' else classes
+            for attribute in ('match', 'not-match') if elem.tag == 'action' else ('name', 'by-ref'):
+                value = elem.get(attribute)
+                if value in (rules if elem.tag == 'action' else names):
+                    elem.set(attribute, value + suffix)
+        return etree.tostring(root, encoding=text_type)
+
+    lgr.rules = [rename(name) for name in lgr.rules]
+    lgr.rules_xml = [rename_xml(xml) for xml in lgr.rules_xml]
+    lgr.classes = [name + suffix if name in classes else name for name in lgr.classes]
+    lgr.classes_xml = [rename_xml(xml) for xml in lgr.classes_xml]
+    lgr.actions_xml = [rename_xml(xml) for xml in lgr.actions_xml]
+    for action in lgr.actions:
+        action.match, action.not_match = rename(action.match), rename(action.not_match)
+    for char in lgr.repertoire:
+        for elem in [char] + list(char.get_variants()):
+            elem.when, elem.not_when = rename(elem.when), rename(elem.not_when)
+
+
+def rename_conflicts(lgr1, lgr2):
+    """
+    Distinguish the rules and classes which have the same name in two LGRs, but not the same definition.
+
+    :param lgr1: First LGR.
+    :param lgr2: Second LGR.
+    :return: The LGRs, or copies of them where those rules and classes are suffixed with _1 and _2.
+    """
+    rules, classes = _conflicts(lgr1, lgr2)
+    if not rules and not classes:
+        return lgr1, lgr2
+
+    # The new names must not be those of other definitions
+    sep = '_'
+    names = set(lgr1.rules + lgr2.rules + lgr1.classes + lgr2.classes)
+    while any(name + sep + number in names for name in rules | classes for number in '12'):
+        sep += '_'
+
+    lgr1, lgr2 = copy.deepcopy(lgr1), copy.deepcopy(lgr2)
+    _suffix_definitions(lgr1, sep + '1', rules, classes)
+    _suffix_definitions(lgr2, sep + '2', rules, classes)
+    return lgr1, lgr2
+
+
 def latest_version(first, second):
     """
     Return the latest of two versions of Unicode.
-- 
2.43.0


From ffbea92467d3ca90da25e33bd3db289fa0f310a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 060/103] fix: harmonization says so in the comment of the
 version, when there is one already

---
 lgr/tools/harmonize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/harmonize.py b/lgr/tools/harmonize.py
index f7ca2ff..e8f8021 100644
--- a/lgr/tools/harmonize.py
+++ b/lgr/tools/harmonize.py
@@ -37,7 +37,9 @@ def harmonize(lgr_1, lgr_2, rz_lgr=None, _copy=True):
 
     for lgr in (h_lgr_1, h_lgr_2):
         if lgr.metadata.version is not None:
-            lgr.metadata.version.comment = lgr.metadata.version.comment or '' + ' - Harmonized'
+            comment = lgr.metadata.version.comment or ''
+            if not comment.endswith(' - Harmonized'):
+                lgr.metadata.version.comment = comment + ' - Harmonized'
 
     # New variants from RZ-LGR - harmonize each of the LGR with the RZ-LGR for the given script
     if rz_lgr is not None:
-- 
2.43.0


From 916f4ee3a092c50908b053122ec4b7f87a4acfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 061/103] fix: difference of LGRs compares the definitions of
 actions, rules and classes

---
 lgr/tools/compare/diff.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index f6c5e81..6a1df9e 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -239,12 +239,31 @@ def diff_actions(lgr1, lgr2, show_same=False):
     :param show_same: Show result even if they are identical.
     :return: Text comparison.
     """
-    actions_1 = [a.disp for a in lgr1.actions]
-    actions_2 = [a.disp for a in lgr2.actions]
+    actions_1 = [a.strip() for a in lgr1.actions_xml]
+    actions_2 = [a.strip() for a in lgr2.actions_xml]
     return compare_things(set(actions_1), set(actions_2), "actions", True,
                           show_same=show_same)
 
 
+def diff_definitions(first, first_xml, second, second_xml, name):
+    """
+    Diff the definitions of rules (classes) which have the same name.
+
+    :param first: The names in the first LGR.
+    :param first_xml: The XML definitions in the first LGR.
+    :param second: The names in the second LGR.
+    :param second_xml: The XML definitions in the second LGR.
+    :param name: The name of the things to compare.
+    :return: Text comparison.
+    """
+    output = ""
+    definitions = dict(zip(second, second_xml))
+    for definition, xml in zip(first, first_xml):
+        if definition in definitions:
+            output += compare_things(xml.strip(), definitions[definition].strip(), name)
+    return output
+
+
 def diff_rules(lgr1, lgr2, show_same=False):
     """
     Diff two rule lists.
@@ -254,8 +273,10 @@ def diff_rules(lgr1, lgr2, show_same=False):
     :param show_same: Show result even if they are identical.
     :return: Text comparison.
     """
-    return compare_things(set(lgr1.rules), set(lgr2.rules), "rules", True,
-                          show_same=show_same)
+    output = compare_things(set(lgr1.rules), set(lgr2.rules), "rules", True,
+                            show_same=show_same)
+    return output + diff_definitions(lgr1.rules, lgr1.rules_xml,
+                                     lgr2.rules, lgr2.rules_xml, "rule definition")
 
 
 def diff_classes(lgr1, lgr2, show_same=False):
@@ -267,8 +288,10 @@ def diff_classes(lgr1, lgr2, show_same=False):
     :param show_same: Show result even if they are identical.
     :return: Text comparison.
     """
-    return compare_things(set(lgr1.classes), set(lgr2.classes), "classes", True,
-                          show_same=show_same)
+    output = compare_things(set(lgr1.classes), set(lgr2.classes), "classes", True,
+                            show_same=show_same)
+    return output + diff_definitions(lgr1.classes, lgr1.classes_xml,
+                                     lgr2.classes, lgr2.classes_xml, "class definition")
 
 
 def diff_lgrs(lgr1, lgr2, show_same=True):
-- 
2.43.0


From be6edb6bf9dc04832a5e2bc8879580f37b1cd735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 062/103] fix: difference of LGRs compares the conditions of
 code points

---
 lgr/tools/compare/diff.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index 6a1df9e..3a2fe8f 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -214,14 +214,14 @@ def diff_char(first, second, show_same=True):
     variant_first = {VariantProperties(v.cp, v.type, v.when, v.not_when, v.comment) for v in first.get_variants()}
     variant_second = {VariantProperties(v.cp, v.type, v.when, v.not_when, v.comment) for v in second.get_variants()}
 
-    if not show_same and \
-                    first.comment == second.comment and first.tags == second.tags and variant_first == variant_second:
-        return output
-
     output += compare_things(first.comment, second.comment, "comment",
                              show_same=show_same)
     output += compare_things(first.tags, second.tags, "tags",
                              show_same=show_same)
+    output += compare_things(first.when, second.when, "when rule",
+                             show_same=show_same)
+    output += compare_things(first.not_when, second.not_when, "not-when rule",
+                             show_same=show_same)
 
     output += compare_things(variant_first, variant_second, "variants", True,
                              lambda v: ", ".join(map(display_variant, v)),
-- 
2.43.0


From 6fd60754dbeafb0d1b6e1cdf52957af4c1baab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 063/103] fix: difference of LGRs does not tell apart two LGRs
 without version or description

---
 lgr/tools/compare/diff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index 3a2fe8f..6b844eb 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -87,6 +87,8 @@ def diff_version(first, second, show_same=False):
     output = ''
 
     # Check that none of the object is None before processing
+    if first is None and second is None and not show_same:
+        return output
     if first is None:
         output += "\nFirst LGR has no version"
     if second is None:
@@ -115,6 +117,8 @@ def diff_description(first, second, show_same=False):
     output = ''
 
     # Check that none of the object is None before processing
+    if first is None and second is None and not show_same:
+        return output
     if first is None:
         output += "\nFirst LGR has no description"
     if second is None:
-- 
2.43.0


From 99bee89a4d390a30ce12d75f9c06ae8c72f1e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 064/103] fix: the report of the difference of LGRs is the same
 on every run

---
 lgr/tools/compare/diff.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index 6b844eb..396ed5a 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -20,9 +20,12 @@ def compare_sets(first, second, format_fct=text_type,
     :param show_same: Show common repertoire code points.
     :return: Text comparison.
     """
-    only_first = list(first - second)
-    only_second = list(second - first)
-    common = list(first & second)
+    def in_order(values):
+        return sorted(values, key=lambda v: format_fct([v]))
+
+    only_first = in_order(first - second)
+    only_second = in_order(second - first)
+    common = in_order(first & second)
 
     if len(common) == 0:
         common = 'None'
@@ -69,7 +72,7 @@ Second LGR: '{}'.
 
     else:
         if show_same:
-            value = list(first) if is_set else first
+            value = sorted(first, key=lambda v: format_fct([v])) if is_set else first
             return """
 Same {} value for both LGR: '{}'.""".format(name, format_fct(value))
         else:
@@ -340,7 +343,7 @@ def diff_lgrs(lgr1, lgr2, show_same=True):
 """
 
     identical = 0
-    for cp in set.intersection(first_cps, second_cps):
+    for cp in sorted(set.intersection(first_cps, second_cps)):
         char1 = lgr1.get_char(cp)
         char2 = lgr2.get_char(cp)
 
@@ -404,14 +407,14 @@ def diff_lgr_sets(lgr1, lgr2, lgr_set_1, lgr_set_2, show_same=True):
     output += out
 
     common_script = set(lgr_scripts_1.keys()) & set(lgr_scripts_2.keys())
-    for script in set(lgr_scripts_1.keys()) - set(lgr_scripts_2.keys()):
+    for script in sorted(set(lgr_scripts_1.keys()) - set(lgr_scripts_2.keys())):
         output += """
 Script '{script}' is available in LGR set '{set1}' with LGR '{lgrs}' but not in LGR set '{set2}'.
 
     """.format(script=script, set1=lgr1.name, set2=lgr2.name,
                lgrs="', '".join([lgr.name for lgr in lgr_scripts_1[script]]))
 
-    for script in set(lgr_scripts_2.keys()) - set(lgr_scripts_1.keys()):
+    for script in sorted(set(lgr_scripts_2.keys()) - set(lgr_scripts_1.keys())):
         output += """
 Script '{script}' is available in LGR set '{set2}' with LGR '{lgrs}' but not in LGR set '{set1}'.
 
@@ -422,7 +425,7 @@ Script '{script}' is available in LGR set '{set2}' with LGR '{lgrs}' but not in
     output += diff_metadata(lgr1.metadata, lgr2.metadata, is_set=True)
 
     # compare LGR having the same script from each set
-    for script in common_script:
+    for script in sorted(common_script):
         for l1 in lgr_scripts_1[script]:
             for l2 in lgr_scripts_2[script]:
                 # for each script, compare LGRs
-- 
2.43.0


From 4d2cd97305e3491da28ba1019c66ed5bc7e6fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 065/103] fix: merging LGRs gives a code point of several LGRs
 its references, and tags in order

---
 lgr/tools/merge_set.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 5982621..a437703 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -22,7 +22,7 @@ from collections import OrderedDict
 from lgr.exceptions import LGRFormatException, CharInvalidContextRule
 from lgr.core import LGR, DEFAULT_ACTIONS
 from lgr.metadata import Metadata, Version, Description
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, union_lists
 from lgr.parser.xml_parser import XMLParser
 from lgr.parser.xml_serializer import serialize_lgr_xml
 from lgr.utils import let_user_choose
@@ -331,7 +331,8 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             script_extensions = lgr.unicode_database.get_script_extensions(char.cp[0])
         else:
             script_extensions = []
-        new_tags = set(script + '-' + x if ':' not in x else x for x in char.tags) | set(script_extensions)
+        new_tags = union_lists((script + '-' + x if ':' not in x else x for x in char.tags), script_extensions)
+        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
         existing_char = None
         if char in merged_chars:
             existing_char = merged_chars[char]
@@ -339,8 +340,8 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
         if existing_char:
             # same cp already in LGR
             existing_char.comment = let_user_choose(existing_char.comment, char.comment)
-            existing_char.tags = list(set.union(set(existing_char.tags), set(new_tags)))
-            existing_char.references = set.union(set(existing_char.references), set(char.references))
+            existing_char.tags = union_lists(existing_char.tags, new_tags)
+            existing_char.references = union_lists(existing_char.references, new_ref)
 
             # if 2 scripts have different variants on a character, we need to add the variants for script 1 as
             # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
@@ -422,9 +423,8 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
         if char.not_when:
             not_when = script + '-' + char.not_when
 
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
         merged_lgr.add_cp(char.cp, comment=char.comment, ref=new_ref,
-                          tag=list(new_tags),
+                          tag=new_tags,
                           when=when, not_when=not_when)
         for v in char.get_variants():
             when = None
-- 
2.43.0


From 58cd7c27a0537e0c64393f2e9926eb1a448b4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 066/103] fix: merging LGRs renames the rule of an action, and
 not what else has its name

---
 lgr/tools/merge_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index a437703..c34100e 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -173,14 +173,14 @@ def rename_action(action, action_xml, script):
         else:
             # Prefix MSR action with 'Common-'
             new_action.match = 'Common-' + action.match
-        action_xml = action_xml.replace(action.match, new_action.match)
+        action_xml = re.sub(r'(?<!not-)\bmatch="[^"]*"', 'match="{}"'.format(new_action.match), action_xml)
     if action.not_match:
         if action.not_match not in MSR_2_RULES:
             new_action.not_match = script + '-' + action.not_match
         else:
             # Prefix MSR action with 'Common-'
             new_action.not_match = 'Common-' + action.not_match
-        action_xml = action_xml.replace(action.not_match, new_action.not_match)
+        action_xml = re.sub(r'\bnot-match="[^"]*"', 'not-match="{}"'.format(new_action.not_match), action_xml)
 
     return new_action, action_xml
 
-- 
2.43.0


From 864b2f3d615becdf9de5c764345a62022f011599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 067/103] fix: merging LGRs names the common rules as such in
 the conditions of code points and variants

---
 lgr/tools/merge_set.py | 52 +++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index c34100e..f943228 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -212,6 +212,19 @@ def merge_actions(lgr, script, merged_lgr, ref_mapping):
         merged_lgr.actions_xml.append(merged_action_xml)
 
 
+def rename_condition(name, script):
+    """
+    Prefix the rule of a condition with script
+
+    :param name: The name of the rule, if any
+    :param script: The LGR script
+    :return: Updated name
+    """
+    if not name:
+        return None
+    return ('Common-' if name in MSR_2_RULES else script + '-') + name
+
+
 def rename_rule(rule, rule_xml, script):
     """
     Prefix rule name or reference with script
@@ -365,14 +378,9 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # do not keep new_v1 as reflexive variant may have been removed
             for v in set.difference(set(char.get_variants()), set(existing_char.get_variants())):
                 new_ref = [ref_mapping[script].get(x, x) for x in v.references]
-                new_when = None
-                new_not_when = None
-                if v.when:
-                    new_when = script + '-' + v.when
-                if v.not_when:
-                    new_not_when = script + '-' + v.not_when
                 merged_lgr.add_variant(existing_char.cp, v.cp, variant_type='blocked',
-                                       when=new_when, not_when=new_not_when,
+                                       when=rename_condition(v.when, script),
+                                       not_when=rename_condition(v.not_when, script),
                                        comment=v.comment, ref=new_ref)
                 # existing variants comment or references are not updated as it is not really important
 
@@ -385,7 +393,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             existing_when = existing_char.when
             existing_not_when = existing_char.not_when
             # retrieve WLE names
-            for other_script in reversed(previous_scripts):
+            for other_script in list(reversed(previous_scripts)) + ['Common']:
                 if existing_char.when:
                     existing_when = re.sub(r'^{}-'.format(other_script), '', existing_when)
                 if existing_char.not_when:
@@ -393,7 +401,9 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
 
             if char.when:
                 if not existing_when:
-                    existing_char.when = script + '-' + char.when
+                    existing_char.when = rename_condition(char.when, script)
+                elif existing_when == char.when and char.when in MSR_2_RULES:
+                    pass  # already the common rule
                 elif existing_when == char.when:
                     existing_char.when = script + '-' + existing_char.when
                     # add a merged rule
@@ -404,7 +414,9 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
 
             if char.not_when:
                 if not existing_not_when:
-                    existing_char.not_when = script + '-' + char.not_when
+                    existing_char.not_when = rename_condition(char.not_when, script)
+                elif existing_not_when == char.not_when and char.not_when in MSR_2_RULES:
+                    pass  # already the common rule
                 elif existing_not_when == char.not_when:
                     existing_char.not_when = script + '-' + existing_char.not_when
                     # add a merged rule
@@ -416,28 +428,16 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             continue
 
         # add new cp in LGR
-        when = None
-        not_when = None
-        if char.when:
-            when = script + '-' + char.when
-        if char.not_when:
-            not_when = script + '-' + char.not_when
-
         merged_lgr.add_cp(char.cp, comment=char.comment, ref=new_ref,
                           tag=new_tags,
-                          when=when, not_when=not_when)
+                          when=rename_condition(char.when, script),
+                          not_when=rename_condition(char.not_when, script))
         for v in char.get_variants():
-            when = None
-            not_when = None
-            if v.when:
-                when = script + '-' + v.when
-            if v.not_when:
-                not_when = script + '-' + v.not_when
-
             new_ref = [ref_mapping[script].get(r, r) for r in v.references]
             merged_lgr.add_variant(char.cp, v.cp, variant_type='blocked',
                                    comment=v.comment, ref=new_ref,
-                                   when=when, not_when=not_when)
+                                   when=rename_condition(v.when, script),
+                                   not_when=rename_condition(v.not_when, script))
 
     # handle transitivity for variants that differ between scripts
     for var1_list, var2_list in new_variants:
-- 
2.43.0


From 23575aaffeeed5b980a42e33c63efc6fa6e6533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 068/103] fix: merging LGRs keeps the references of each part
 of rules and classes

---
 lgr/tools/merge_set.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index f943228..2fe2693 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -157,6 +157,18 @@ def merge_references(lgr, script, merged_lgr, ref_mapping):
                     ref_mapping[script][ref_id] = inserted_references[ref]
 
 
+def rename_references(xml, mapping):
+    """
+    Replace references in the XML of a definition, each element having its own.
+
+    :param xml: The XML
+    :param mapping: The reference id mapping
+    :return: Updated XML
+    """
+    return re.sub(r'(?<!by-)ref="([^"]+)"',
+                  lambda m: 'ref="{}"'.format(' '.join(mapping.get(x, x) for x in m.group(1).split())), xml)
+
+
 def rename_action(action, action_xml, script):
     """
     Prefix action matches with script
@@ -206,7 +218,7 @@ def merge_actions(lgr, script, merged_lgr, ref_mapping):
         # Replace references in python object and XML
         new_ref = [ref_mapping.get(script, {}).get(x, x) for x in action.references]
         merged_action.references = new_ref
-        merged_action_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_action_xml)
+        merged_action_xml = rename_references(merged_action_xml, ref_mapping.get(script, {}))
 
         merged_lgr.actions.append(merged_action)
         merged_lgr.actions_xml.append(merged_action_xml)
@@ -274,9 +286,7 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
             # MSR-2
             continue
 
-        # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in rule.references]
-        merged_rule_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_rule_xml)
+        merged_rule_xml = rename_references(merged_rule_xml, ref_mapping.get(script, {}))
 
         merged_lgr.rules.append(merged_rule_name)
         merged_lgr.rules_xml.append(merged_rule_xml)
@@ -319,9 +329,7 @@ def merge_classes(lgr, script, merged_lgr, ref_mapping):
         class_xml = lgr.classes_xml[lgr.classes.index(classe.name)]
         merged_class_name, merged_class_xml = rename_class(classe, class_xml, script)
 
-        # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in classe.references]
-        merged_class_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_class_xml)
+        merged_class_xml = rename_references(merged_class_xml, ref_mapping.get(script, {}))
 
         merged_lgr.classes.append(merged_class_name)
         merged_lgr.classes_xml.append(merged_class_xml)
-- 
2.43.0


From 5e7bd8dd4297723075dbcc92e6b1c3f066512983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 069/103] fix: merging LGRs keeps what the rules refer to, when
 they are conditions of several LGRs or have a name like a common one

---
 lgr/tools/merge_set.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 2fe2693..3ec51da 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -30,7 +30,7 @@ from lgr.utils import let_user_choose
 logger = logging.getLogger(__name__)
 
 MSR_2_RULES = ['leading-combining-mark']
-MSR_NEGATIVE_LOOK_AHEAD = r'(?!' + '|'.join(MSR_2_RULES) + r')'
+MSR_NEGATIVE_LOOK_AHEAD = r'(?!(?:' + '|'.join(MSR_2_RULES) + r')")'
 
 
 def get_script(lgr):
@@ -237,13 +237,14 @@ def rename_condition(name, script):
     return ('Common-' if name in MSR_2_RULES else script + '-') + name
 
 
-def rename_rule(rule, rule_xml, script):
+def rename_rule(rule, rule_xml, script, ref_script=None):
     """
     Prefix rule name or reference with script
 
     :param rule: The rule
     :param rule_xml: The rule XML
     :param script:  The LGR script
+    :param ref_script: The script for what the rule refers to, if not the same
     :return: Updated rule name, updated rule XML
     """
     if rule.name not in MSR_2_RULES:
@@ -254,6 +255,9 @@ def rename_rule(rule, rule_xml, script):
         new_rule_name = 'Common-' + rule.name
     rule_xml = re.sub(r'name="' + rule.name + '"', r'name="' + new_rule_name + '"', rule_xml)
 
+    # the script of what the rule refers to
+    script = ref_script or script
+
     # do not replace references in MSR Rules that keep unchanged
     # the following sub should replace all references in rules content, ignore tags with ':'
     rule_xml = re.sub(r'by-ref="' + MSR_NEGATIVE_LOOK_AHEAD + r'([^"]+)"', r'by-ref="{}-\1"'.format(script), rule_xml)
@@ -265,7 +269,7 @@ def rename_rule(rule, rule_xml, script):
     return new_rule_name, rule_xml
 
 
-def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
+def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None, rule_script=None):
     """
     Merge rules from LGR set.
 
@@ -274,6 +278,7 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
     :param merged_lgr: The merged LGR
     :param ref_mapping: The reference mapping from base LGR to new LGR
     :param specific: Merge only a specific rule
+    :param rule_script: The prefix of the name of rules, if not the LGR script
     """
     logger.debug("Merge rules")
 
@@ -281,7 +286,7 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
         if specific and rule.name != specific:
             continue
         rule_xml = lgr.rules_xml[lgr.rules.index(rule.name)]
-        merged_rule_name, merged_rule_xml = rename_rule(rule, rule_xml, script)
+        merged_rule_name, merged_rule_xml = rename_rule(rule, rule_xml, rule_script or script, ref_script=script)
         if merged_rule_name in merged_lgr.rules:
             # MSR-2
             continue
@@ -416,7 +421,8 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                     existing_char.when = script + '-' + existing_char.when
                     # add a merged rule
                     matching_script = re.sub(r'-{}$'.format(existing_when), '', existing_char.when)
-                    merge_rules(lgr, matching_script, merged_lgr, ref_mapping, specific=existing_when)
+                    merge_rules(lgr, script, merged_lgr, ref_mapping, specific=existing_when,
+                                rule_script=matching_script)
                 else:
                     raise CharInvalidContextRule(char.cp, char.when)
 
@@ -429,7 +435,8 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                     existing_char.not_when = script + '-' + existing_char.not_when
                     # add a merged rule
                     matching_script = re.sub(r'-{}$'.format(existing_not_when), '', existing_char.not_when)
-                    merge_rules(lgr, matching_script, merged_lgr, ref_mapping, specific=existing_not_when)
+                    merge_rules(lgr, script, merged_lgr, ref_mapping, specific=existing_not_when,
+                                rule_script=matching_script)
                 else:
                     raise CharInvalidContextRule(char.cp, char.not_when)
 
@@ -484,10 +491,11 @@ def merge_lgr_set(lgr_set, name):
         lgr.expand_ranges()
 
         merge_references(lgr, script, merged_lgr, ref_mapping)
-        merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts)
         merge_actions(lgr, script, merged_lgr, ref_mapping)
         merge_rules(lgr, script, merged_lgr, ref_mapping)
         merge_classes(lgr, script, merged_lgr, ref_mapping)
+        # rules for shared conditions have to be after those which they refer to
+        merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts)
         previous_scripts.append(script)
 
     # XXX As the created merged_lgr is not a valid Python LGR object,
-- 
2.43.0


From e295650b737e71e0442fea76219e21573488a53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 070/103] fix: merging LGRs makes variants transitive whatever
 they have in common

---
 lgr/tools/merge_set.py | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 3ec51da..b3429c7 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -373,23 +373,16 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
             # script 2, we need to set b as c variant and conversely). We do that after processing all code points
             # as the code point for the new variant may not be in the merged LGR in the current iteration.
-            new_v1 = set.difference(set(char.get_variants()), set(existing_char.get_variants()))
-            new_v2 = set.difference(set(existing_char.get_variants()), set(char.get_variants()))
-            # remove cp itself to avoid error with reflexive variants
-            for v in new_v1:
-                if v.cp == existing_char.cp:
-                    new_v1.remove(v)
-                    break
-            for v in new_v2:
-                if v.cp == existing_char.cp:
-                    new_v2.remove(v)
-                    break
-            if new_v1 and new_v2:
-                new_variants.append((new_v1, new_v2))
+            v1 = {v.cp for v in char.get_variants()} - {char.cp}
+            v2 = {v.cp for v in existing_char.get_variants()} - {char.cp}
+            if v1 - v2 and v2 - v1:
+                new_variants.append(char.cp)
 
             # add new variants to current code point
-            # do not keep new_v1 as reflexive variant may have been removed
-            for v in set.difference(set(char.get_variants()), set(existing_char.get_variants())):
+            existing_variants = {(v.cp, v.when, v.not_when) for v in existing_char.get_variants()}
+            for v in char.get_variants():
+                if (v.cp, rename_condition(v.when, script), rename_condition(v.not_when, script)) in existing_variants:
+                    continue
                 new_ref = [ref_mapping[script].get(x, x) for x in v.references]
                 merged_lgr.add_variant(existing_char.cp, v.cp, variant_type='blocked',
                                        when=rename_condition(v.when, script),
@@ -455,13 +448,17 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                                    not_when=rename_condition(v.not_when, script))
 
     # handle transitivity for variants that differ between scripts
-    for var1_list, var2_list in new_variants:
-        for v1 in var1_list:
-            for v2 in var2_list:
-                merged_lgr.add_variant(v1.cp, v2.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
-                merged_lgr.add_variant(v2.cp, v1.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
+    for cp in new_variants:
+        # all the code points which are now variants of one another, other variants excepted
+        variants = [cp]
+        for a in variants:
+            if a in merged_lgr.repertoire:
+                variants += [v.cp for v in merged_lgr.get_variants(a) if v.cp not in variants]
+        for a in variants:
+            for b in variants:
+                if a != b and a in merged_lgr.repertoire and b not in [v.cp for v in merged_lgr.get_variants(a)]:
+                    merged_lgr.add_variant(a, b, variant_type='blocked',
+                                           comment='New variant for merge to keep transitivity')
 
 
 def merge_lgr_set(lgr_set, name):
-- 
2.43.0


From 4eb5834902a89be4ab6f5d9687ccba57ca21b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 071/103] fix: merging LGRs keeps the latest Unicode version,
 10.0.0 being after 6.3.0

---
 lgr/tools/merge_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index b3429c7..6814309 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -22,7 +22,7 @@ from collections import OrderedDict
 from lgr.exceptions import LGRFormatException, CharInvalidContextRule
 from lgr.core import LGR, DEFAULT_ACTIONS
 from lgr.metadata import Metadata, Version, Description
-from lgr.tools.compare.utils import compare_objects, union_lists
+from lgr.tools.compare.utils import compare_objects, latest_version, union_lists
 from lgr.parser.xml_parser import XMLParser
 from lgr.parser.xml_serializer import serialize_lgr_xml
 from lgr.utils import let_user_choose
@@ -122,7 +122,7 @@ def merge_metadata(lgr_set):
 
         output.unicode_version = compare_objects(output.unicode_version,
                                                  metadata.unicode_version,
-                                                 max)
+                                                 latest_version)
 
     output.scopes = list(scopes.keys())
     output.languages = list(languages.keys())
-- 
2.43.0


From 35e4b6efc327a2c302e1cb2ac88d365814e876dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 072/103] fix: merging LGRs refuses a code point with a when in
 one and a not-when in another, as documented

---
 lgr/tools/merge_set.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 6814309..05bbeda 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -405,6 +405,10 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                 if existing_char.not_when:
                     existing_not_when = re.sub(r'^{}-'.format(other_script), '', existing_not_when)
 
+            if (char.when and existing_not_when) or (char.not_when and existing_when):
+                # a code point cannot have both
+                raise CharInvalidContextRule(char.cp, char.when or char.not_when)
+
             if char.when:
                 if not existing_when:
                     existing_char.when = rename_condition(char.when, script)
-- 
2.43.0


From 60e6676771d60309ec47f4bfb2a0fb3da64acc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 073/103] fix: merging LGRs of Unicode 5.2.0 does not claim
 another version

---
 lgr/tools/merge_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 05bbeda..c6693fc 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -104,6 +104,9 @@ def merge_metadata(lgr_set):
     logger.debug("Merge metadata")
 
     output = Metadata()
+    if lgr_set:
+        # not the default one
+        output.unicode_version = lgr_set[0].metadata.unicode_version
 
     output.version = merge_version(lgr_set)
     output.description = merge_description(lgr_set)
-- 
2.43.0


From b133c1e915fe0fb25019e266945b3679d5d8982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 074/103] fix: IDN table review lists as additional the code
 points of ranges, not those of variant sets

---
 lgr/tools/idn_review/variant_sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 42a9c05..d5bb6b5 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -472,8 +472,8 @@ def get_additional_codepoints(idn_table, idn_table_variant_sets, reference_lgr)
     Get code points from IDN table not in reference LGR that are not handled in the report (i.e. not in a variant set)
     """
     unidb = idn_table.unicode_database
-    variants_flat = set(zip(*[v for v in idn_table_variant_sets.values()]))
-    return cp_report(unidb, [char for char in idn_table.repertoire if
+    variants_flat = set(cp for v in idn_table_variant_sets.values() for cp in v)
+    return cp_report(unidb, [char for char in idn_table.repertoire.all_repertoire() if
                       char.cp not in variants_flat and char not in reference_lgr.repertoire])
 
 
-- 
2.43.0


From 467a3e1826047428641984619145e345124b17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 075/103] fix: IDN table review takes all the code points of
 ranges into account to compare rules

---
 lgr/tools/idn_review/whole_label_evaluation_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/idn_review/whole_label_evaluation_rules.py b/lgr/tools/idn_review/whole_label_evaluation_rules.py
index 455f5a7..1b25daf 100644
--- a/lgr/tools/idn_review/whole_label_evaluation_rules.py
+++ b/lgr/tools/idn_review/whole_label_evaluation_rules.py
@@ -275,7 +275,7 @@ class WholeLabelEvaluationRuleReport:
         self.reference_lgr_rule = reference_lgr_rule
         self.idn_table_context = idn_table_context
         self.reference_lgr_context = reference_lgr_context
-        self.idn_table_repertoire = set(c.cp for c in self.idn_table.repertoire)
+        self.idn_table_repertoire = set(c.cp for c in self.idn_table.repertoire.all_repertoire())
 
     def compare_wle(self) -> Tuple[IdnReviewResult, str]:
         # compare rule regex for rule equality
@@ -366,7 +366,7 @@ class WholeLabelEvaluationRulesCheck:
         self.has_multiple_digits_sets = nbr_digits > 10
 
         if self.reference_lgr:
-            for char in self.reference_lgr.repertoire:
+            for char in self.reference_lgr.repertoire.all_repertoire():
                 if char.when:
                     self.reference_lgr_context_rules.setdefault(char.when, set()).add(char.cp)
                 if char.not_when:
-- 
2.43.0


From a3a455612ff26127bcea711de093471e158a5925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 076/103] fix: IDN table review reports a when against a
 not-when as different, not as missing

---
 lgr/tools/idn_review/variant_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index d5bb6b5..ba2e997 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -203,7 +203,7 @@ class VariantComparison:
             return self.IdnRuleCheck.DIFFERENT
         if (idn_wle['when'] or idn_wle['not-when']) and not ref_wle['when'] and not ref_wle['not-when']:
             return self.IdnRuleCheck.LESS_CONSERVATIVE
-        if not idn_wle['when'] and not idn_wle['not-when'] and (ref_wle['when']) or ref_wle['not-when']:
+        if not idn_wle['when'] and not idn_wle['not-when'] and (ref_wle['when'] or ref_wle['not-when']):
             return self.IdnRuleCheck.MISSING
         return self.IdnRuleCheck.DIFFERENT
 
-- 
2.43.0


From 4b8f56d3641cfc510a16435e3c4286a465cbfec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 077/103] fix: IDN table review compares all the conditions of
 the variants of a code point, not any one of them

---
 lgr/tools/idn_review/variant_sets.py | 53 +++++++++++-----------------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index ba2e997..1ac9743 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -66,52 +66,28 @@ class VariantData:
         return ' - '.join(sorted(c.type for c in self._rev if c.type is not None))
 
     def get_when(self) -> str:
-        for v in self.get_vars():
-            if v.when:
-                return v.when
-        return None
+        return self._conditions(v.when for v in self.get_vars())
 
     def get_not_when(self) -> str:
-        for v in self.get_vars():
-            if v.not_when:
-                return v.not_when
-        return None
+        return self._conditions(v.not_when for v in self.get_vars())
 
     def get_rev_when(self) -> str:
-        for v in self.get_rev_vars():
-            if v.when:
-                return v.when
-        return None
+        return self._conditions(v.when for v in self.get_rev_vars())
 
     def get_rev_not_when(self) -> str:
-        for v in self.get_rev_vars():
-            if v.not_when:
-                return v.not_when
-        return None
+        return self._conditions(v.not_when for v in self.get_rev_vars())
 
     def get_when_type(self) -> str:
-        for v in self.get_vars():
-            if v.when:
-                return v.type
-        return ''
+        return self._common_type(v for v in self.get_vars() if v.when)
 
     def get_not_when_type(self) -> str:
-        for v in self.get_vars():
-            if v.not_when:
-                return v.type
-        return ''
+        return self._common_type(v for v in self.get_vars() if v.not_when)
 
     def get_rev_when_type(self) -> str:
-        for v in self.get_rev_vars():
-            if v.when:
-                return v.type
-        return ''
+        return self._common_type(v for v in self.get_rev_vars() if v.when)
 
     def get_rev_not_when_type(self) -> str:
-        for v in self.get_rev_vars():
-            if v.not_when:
-                return v.type
-        return ''
+        return self._common_type(v for v in self.get_rev_vars() if v.not_when)
 
     def get_non_conditional_type(self) -> str:
         for v in self.get_vars():
@@ -125,6 +101,19 @@ class VariantData:
                 return v.type
         return ''
 
+    @staticmethod
+    def _conditions(names) -> str:
+        # all of them, in an order which does not depend on the one of sets
+        return ' - '.join(sorted(n for n in names if n)) or None
+
+    @staticmethod
+    def _common_type(variants) -> str:
+        # variants with different conditions have one type or the list of them in the order of the conditions
+        types = [v.type for v in sorted(variants, key=lambda v: (v.when or '', v.not_when or ''))]
+        if not types:
+            return ''
+        return types[0] if len(set(types)) == 1 else ' - '.join(str(t) for t in types)
+
     @classmethod
     def none(cls):
         return cls(False)
-- 
2.43.0


From 8d9bce50664eefd0d4596e152498b09436801202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:32 +0000
Subject: [PATCH 078/103] fix: IDN table review does not report an exact match
 for a reverse variant which is missing

---
 lgr/tools/idn_review/variant_sets.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 1ac9743..490e448 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -301,12 +301,15 @@ class VariantReport:
         if self.reference_lgr_variant_set_missing:
             return IdnReviewResult.MANUAL_CHECK.name, "Variant set only exists in the IDN Table"
 
-        if not self.idn_table_var_data.has_variant():
+        reverse = direction == VariantComparison.Direction.REVERSE
+        idn_has_reverse = self.idn_table_var_data.has_reverse()
+        ref_has_reverse = self.reference_lgr_var_data.has_reverse()
+        if not self.idn_table_var_data.has_variant() or (reverse and ref_has_reverse and not idn_has_reverse):
             if in_idn_repertoire:
                 return IdnReviewResult.REVIEW.name, "Variant member exists in the reference LGR"
             return IdnReviewResult.NOTE.name, "Not applicable"
 
-        if not self.reference_lgr_var_data.has_variant():
+        if not self.reference_lgr_var_data.has_variant() or (reverse and idn_has_reverse and not ref_has_reverse):
             return IdnReviewResult.MANUAL_CHECK.name, "Variant member exists in IDN Table but not in the reference LGR"
 
         rules_check = self.variant_compare.check_rules(direction)
-- 
2.43.0


From 1925bb370c0f3457298cef258be2d55df14686f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 079/103] fix: a class of code points in a rule is not
 displayed, and reviewed, as a sequence of them

---
 lgr/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index 0aa5b90..529982a 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -218,7 +218,8 @@ class Class(object):
             name, value = self.unicode_property.split(':')
             return '[:class property:{}={}:]'.format(name, value)
 
-        return format_cp_collapsed(self.codepoints)
+        # not to be confused with a sequence of code points
+        return '[{}]'.format(format_cp_collapsed(self.codepoints))
 
     def __repr__(self):
         return '<Class %s>' % (self.name or self.from_tag or self.by_ref)
-- 
2.43.0


From 5c128384dde844024d409fbf798de63b46923aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 080/103] fix: IDN table review crashed when a sequence of the
 table ends a label of the general rules

---
 lgr/tools/idn_review/whole_label_evaluation_rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lgr/tools/idn_review/whole_label_evaluation_rules.py b/lgr/tools/idn_review/whole_label_evaluation_rules.py
index 1b25daf..3cb255a 100644
--- a/lgr/tools/idn_review/whole_label_evaluation_rules.py
+++ b/lgr/tools/idn_review/whole_label_evaluation_rules.py
@@ -400,6 +400,10 @@ class WholeLabelEvaluationRulesCheck:
 
     # TODO move method in core.py
     def check_label_cp_in_repertoire(self, label):
+        if not label:
+            # the last part was a sequence
+            return True
+
         result = False
         cp = label[0]
 
-- 
2.43.0


From bbf4caf3c481702b27433f565b9cd2647c188d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 081/103] fix: set operators keep their references when read

---
 lgr/classes.py           | 4 ++--
 lgr/parser/xml_parser.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index 529982a..9e1b193 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -232,8 +232,8 @@ class CombinatorClass(Class):
 
     MAX_CHILDREN = 0
 
-    def __init__(self, name=None, comment=None):
-        super(CombinatorClass, self).__init__(name=name, comment=comment)
+    def __init__(self, name=None, comment=None, ref=None):
+        super(CombinatorClass, self).__init__(name=name, comment=comment, ref=ref)
         self._children = []
         self.symbol = None
 
diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 3c918e5..da4c2eb 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -518,7 +518,8 @@ class XMLParser(LGRParser):
                 DIFFERENCE_TAG: DifferenceClass,
                 SYM_DIFFERENCE_TAG: SymmetricDifferenceClass
             }
-            cls = MAPPING[tag](name=name, comment=comment)
+            cls = MAPPING[tag](name=name, comment=comment,
+                               ref=string_to_list(elem.get('ref', '')))
             # TODO: ensure number of children
             for child in elem:
                 cls.add_child(self._parse_class(child))
-- 
2.43.0


From 19a4352ac04064493e6a9a71fd3815fa9e9cd9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:35 +0000
Subject: [PATCH 082/103] fix: lgr_collision could not run (conflicting option,
 variants of the reference, labels which are not in the LGR)

---
 tools/lgr_collision.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/lgr_collision.py b/tools/lgr_collision.py
index cbc9e16..546748b 100755
--- a/tools/lgr_collision.py
+++ b/tools/lgr_collision.py
@@ -20,7 +20,7 @@ def compute_label_index(lgr, label):
 
 
 def find_variants_to_block(lgr, label_ref, label):
-    var_ref = [var for (var, _, _, _) in lgr._generate_label_variants(label_ref)]
+    var_ref = [var for (var, *_) in lgr._generate_label_variants(label_ref)]
 
     for (variant_cp, disp, _, _, disp_set, _) in lgr.compute_label_disposition(label):
         if variant_cp in var_ref:
@@ -35,8 +35,6 @@ def main():
     parser.add_common_args()
     parser.add_argument('-g', '--generate', action='store_true',
                         help='Generate variants')
-    parser.add_argument('-l', '--libs', metavar='LIBS',
-                        help='ICU libraries', required=True)
     parser.add_argument('-s', '--set', metavar='SET FILE',
                         help='Filepath to the set of reference labels',
                         required=True)
@@ -69,7 +67,11 @@ def main():
         write_output("Check label '%s'" % label)
         label_cp = tuple([ord(c) for c in label])
         label_disp = format_cp(label_cp)
-        label_index = compute_label_index(lgr, label_cp)
+        try:
+            label_index = compute_label_index(lgr, label_cp)
+        except NotInLGR:
+            write_output("Label %s [%s] is not in the LGR" % (label, label_disp))
+            continue
 
         if label_index in ref_label_indexes:
             ref_label_cp = ref_label_indexes[label_index]
-- 
2.43.0


From e7d2e14694d69cd81788d4876ba2b0a0d7c3de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:45 +0000
Subject: [PATCH 083/103] fix: lgr_collision only compared labels with the last
 reference of each index

---
 tools/lgr_collision.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/lgr_collision.py b/tools/lgr_collision.py
index 546748b..4a060d7 100755
--- a/tools/lgr_collision.py
+++ b/tools/lgr_collision.py
@@ -60,7 +60,7 @@ def main():
                 label_index = compute_label_index(lgr, label_cp)
             except NotInLGR:
                 continue
-            ref_label_indexes[label_index] = label_cp
+            ref_label_indexes.setdefault(label_index, []).append(label_cp)
 
     # Deal with input
     for label in get_stdin().read().splitlines():
@@ -74,14 +74,14 @@ def main():
             continue
 
         if label_index in ref_label_indexes:
-            ref_label_cp = ref_label_indexes[label_index]
-            ref_label_disp = format_cp(ref_label_cp)
-            ref_label_u = cp_to_ulabel(ref_label_cp)
-
-            write_output(
-                "Collision for label '%s' [%s] with '%s' [%s]" % (label, label_disp, ref_label_u, ref_label_disp))
-            if args.generate:
-                find_variants_to_block(lgr, ref_label_cp, label_cp)
+            for ref_label_cp in ref_label_indexes[label_index]:
+                ref_label_disp = format_cp(ref_label_cp)
+                ref_label_u = cp_to_ulabel(ref_label_cp)
+
+                write_output(
+                    "Collision for label '%s' [%s] with '%s' [%s]" % (label, label_disp, ref_label_u, ref_label_disp))
+                if args.generate:
+                    find_variants_to_block(lgr, ref_label_cp, label_cp)
         else:
             write_output("No collision for label %s [%s]" % (label, label_disp))
 
-- 
2.43.0


From cf3b8c7548cb70194e9418dec98e1cbdde5c33a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 084/103] fix: lgr_validate crashed when listing variants or
 labels of the set which are not in the LGR

---
 tools/lgr_validate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lgr_validate.py b/tools/lgr_validate.py
index 44b99d1..6ea7f67 100755
--- a/tools/lgr_validate.py
+++ b/tools/lgr_validate.py
@@ -84,7 +84,7 @@ def check_label(lgr, label, generate_variants=False, merged_lgr=None, set_labels
         if generate_variants:
             write_output("Variants:")
             summary, labels = lgr.compute_label_disposition_summary(label_cp)
-            for (variant_cp, var_disp, _, _, _) in labels:
+            for (variant_cp, var_disp, *_) in labels:
                 variant_u = cp_to_ulabel(variant_cp)
                 write_output("\tVariant %s [%s]" % (variant_u, format_cp(variant_cp)))
                 write_output("\t- Disposition: '%s'" % var_disp)
@@ -118,7 +118,7 @@ def main():
             else:
                 label_cp = tuple([ord(c) for c in label])
                 if not parser.script_lgr._test_preliminary_eligibility(label_cp)[0]:
-                    write_output("%s: Not in LGR %s\n" % label, parser.script_lgr)
+                    write_output("%s: Not in LGR %s\n" % (label, parser.script_lgr))
                 else:
                     filtered_set_labels.append(label)
         write_output("# End of filtered set labels\n\n")
-- 
2.43.0


From 6c96ca63cf15c6881eac229ea1a07612d9b00542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 085/103] fix: lgr_cli named the first default action as an
 action of the LGR

---
 tools/lgr_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lgr_cli.py b/tools/lgr_cli.py
index c09c2fb..90e54be 100755
--- a/tools/lgr_cli.py
+++ b/tools/lgr_cli.py
@@ -26,7 +26,7 @@ def check_label(lgr, label, invalid, test):
     (eligible, label_parts, label_invalid_parts, disp, action_idx, logs) = lgr.test_label_eligible(label_cp)
     logger.info("- Eligible: %s", eligible)
     logger.info("- Disposition: %s", disp)
-    is_default_action = action_idx > len(lgr.actions)
+    is_default_action = action_idx >= len(lgr.actions)
     actual_index = action_idx if not is_default_action else action_idx - len(lgr.actions)
     action_name = "DefaultAction" if is_default_action else "Action"
     logger.info("- Action triggered: %s[%d]", action_name, actual_index)
@@ -54,7 +54,7 @@ def check_label(lgr, label, invalid, test):
                                                            "not in repertoire" if rules is None else ','.join(rules))
                                       for cp, rules in variant_invalid_parts)))
 
-            is_default_action = action_idx > len(lgr.actions)
+            is_default_action = action_idx >= len(lgr.actions)
             actual_index = action_idx if not is_default_action else action_idx - len(lgr.actions)
             action_name = "DefaultAction" if is_default_action else "Action"
             logger.info("\t- Action triggered: %s[%d]", action_name, actual_index)
-- 
2.43.0


From 9b939145f7bede71a3182c12b0827fe0b2e2e706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:10 +0000
Subject: [PATCH 086/103] fix: xml_dump crashed as it has no option for the ICU
 libraries

---
 lgr/tools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index 99a7e96..1ce84a2 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -424,7 +424,7 @@ class LgrToolArgParser(argparse.ArgumentParser):
     def get_unidb(self):
         if not self.args:
             self.parse_args()
-        if self.args.libs and not self.unidb:
+        if getattr(self.args, 'libs', None) and not self.unidb:
             libpath, i18n_libpath, libver = self.args.libs.split('#')
             manager = UnicodeDataVersionManager()
             self.unidb = manager.register(None, libpath, i18n_libpath, libver)
-- 
2.43.0


From 84429dbe21634909573ce2760ecb3e32e3c418d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 087/103] fix: lgr_merge_set printed the representation of
 bytes instead of the document

---
 tools/lgr_merge_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lgr_merge_set.py b/tools/lgr_merge_set.py
index c403dd9..baf02b0 100755
--- a/tools/lgr_merge_set.py
+++ b/tools/lgr_merge_set.py
@@ -35,7 +35,7 @@ def main():
     merged_lgr, _ = merge_lgrs(args.lgr_set, name=args.name, rng=args.rng, unidb=parser.get_unidb())
     if not merged_lgr:
         return
-    print(serialize_lgr_xml(merged_lgr, pretty_print=True))
+    print(serialize_lgr_xml(merged_lgr, pretty_print=True, encoding='unicode', xml_declaration=False))
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 903a2643b9e7dad8aee1e00f81f07081ae5e667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:35 +0000
Subject: [PATCH 088/103] fix: tools crashed when an LGR of a set cannot be
 parsed

---
 lgr/tools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index 1ce84a2..4dff000 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -263,7 +263,7 @@ def merge_lgrs(input_lgrs, name=None, rng=None, unidb=None):
         if lgr is None:
             logger.error("Error while parsing LGR file %s." % lgr_file)
             logger.error("Please check compliance with RNG.")
-            return
+            return None, []
 
         lgr_set.append(lgr)
 
-- 
2.43.0


From 02043334fae20e4a2c36abd40ba5d2568e63499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 089/103] fix: IDN table review tool crashed instead of
 skipping the documents it cannot parse

---
 tools/lgr_idn_table_review.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/lgr_idn_table_review.py b/tools/lgr_idn_table_review.py
index ed8f2b0..c5eb159 100755
--- a/tools/lgr_idn_table_review.py
+++ b/tools/lgr_idn_table_review.py
@@ -44,6 +44,7 @@ def main():
         ref_lgr = parse_lgr(reference_lgr_file, args.rng, unidb)
         if not ref_lgr:
             logger.error("Cannot parse LGR file %s, skip it", reference_lgr_file)
+            continue
         reference_lgrs.append(ref_lgr)
 
     idn_tables = []
@@ -52,6 +53,7 @@ def main():
         lgr = parse_lgr(idn_table, args.rng, unidb)
         if not lgr:
             logger.error("Cannot parse LGR file %s, skip it", idn_table)
+            continue
         idn_tables.append(lgr)
 
     os.makedirs(args.output, exist_ok=True)
-- 
2.43.0


From 898e8426306fcd1b49c8eb589fde12d86ea41ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 090/103] fix: lgr_validate ignored the labels of the set which
 are not in the LGR of the script

---
 tools/lgr_validate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/lgr_validate.py b/tools/lgr_validate.py
index 6ea7f67..35289e3 100755
--- a/tools/lgr_validate.py
+++ b/tools/lgr_validate.py
@@ -112,13 +112,13 @@ def main():
     filtered_set_labels = []
     if len(args.lgr_xml) > 1:
         write_output("# The following labels from the set labels are invalid\n")
-        for __, label, valid, error in read_labels(parser.set_labels, parser.script_lgr.unicode_database):
+        for __, label, valid, error in read_labels(parser.set_labels, parser.merged_lgr.unicode_database):
             if not valid:
                 write_output("{}: {}\n".format(label, error))
             else:
                 label_cp = tuple([ord(c) for c in label])
-                if not parser.script_lgr._test_preliminary_eligibility(label_cp)[0]:
-                    write_output("%s: Not in LGR %s\n" % (label, parser.script_lgr))
+                if not parser.merged_lgr._test_preliminary_eligibility(label_cp)[0]:
+                    write_output("%s: Not in LGR %s\n" % (label, parser.merged_lgr))
                 else:
                     filtered_set_labels.append(label)
         write_output("# End of filtered set labels\n\n")
-- 
2.43.0


From bd2818b1adf39e96e8cc161c95ef46eae6ddb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:10 +0000
Subject: [PATCH 091/103] fix: lgr_compare always made a full dump of the
 differences of LGR sets

---
 tools/lgr_compare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lgr_compare.py b/tools/lgr_compare.py
index 500a2ab..77df433 100755
--- a/tools/lgr_compare.py
+++ b/tools/lgr_compare.py
@@ -56,7 +56,7 @@ def main():
         if not merged_lgr_2:
             return
 
-        print(diff_lgr_sets(merged_lgr_1, merged_lgr_2, lgr_set_1, lgr_set_2))
+        print(diff_lgr_sets(merged_lgr_1, merged_lgr_2, lgr_set_1, lgr_set_2, show_same=args.generate))
     else:
         lgr1 = parse_lgr(args.first[0], args.rng)
         lgr2 = parse_lgr(args.second[0], args.rng)
-- 
2.43.0


From deeb7d32e6af9b30b9e1a5f14d2bd105526c1eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 092/103] fix: lgr_harmonize crashed on an LGR it cannot parse,
 and overwrote the first LGR when both have the same name

---
 tools/lgr_harmonize | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tools/lgr_harmonize b/tools/lgr_harmonize
index eaca2a0..2bb88e0 100755
--- a/tools/lgr_harmonize
+++ b/tools/lgr_harmonize
@@ -33,15 +33,20 @@ def main():
     rz_lgr = None
     if args.root_zone:
         rz_lgr = parse_lgr(args.root_zone, args.rng, unidb)
+    if first_lgr is None or second_lgr is None or (args.root_zone and rz_lgr is None):
+        logger.error("Error while parsing LGR files.")
+        logger.error("Please check compliance with RNG.")
+        return
 
     first_h, second_h, (log_first, log_second) = harmonize(first_lgr, second_lgr, rz_lgr)
 
-    for lgr in (first_h, second_h):
+    for lgr, suffix in ((first_h, '_harmonized'),
+                        (second_h, '_harmonized' if first_h.name != second_h.name else '_harmonized_2')):
         xml = serialize_lgr_xml(lgr)
         if lgr.name.endswith('.xml'):
-            name = lgr.name[:-4] + '_harmonized.xml'
+            name = lgr.name[:-4] + suffix + '.xml'
         else:
-            name = lgr.name + '_harmonized'
+            name = lgr.name + suffix
         with open(os.path.join(args.output, name), 'wb') as f:
             f.write(xml)
 
-- 
2.43.0


From ba064a775e15584abb6e1fbc7a17cb6252fde581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 093/103] fix: script of a label which starts with common
 characters was Hani even with Hiragana or Katakana

---
 lgr/tools/utils.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index 4dff000..7f09e58 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -290,27 +290,25 @@ def get_rz_label_script(label: str, unidb: UnicodeDatabase) -> str | None:
 
     script = unidb.get_script(label[0], alpha4=True)
 
-    if script == 'Hani':
-        script = 'Hani'
-        # We keep looking on the other characters to determine if the script can be Jpan.
-        for character in label[1:]:
+    for character in label[1:]:
+        if script == 'Hani':
+            # We keep looking on the other characters to determine if the script can be Jpan.
             if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:
                 script = 'Jpan'
                 break
-
-    elif script in [COMMON_SCRIPT, INHERITED_SCRIPT]:
-        # Since the first character is from the Common or Inherited
-        # scripts, we keep looking to see if the rest match another one.
-        for character in label[1:]:
+        elif script in [COMMON_SCRIPT, INHERITED_SCRIPT]:
+            # Since the first characters are from the Common or Inherited
+            # scripts, we keep looking to see if the rest match another one.
             script = unidb.get_script(character, alpha4=True)
-            if script not in [COMMON_SCRIPT, INHERITED_SCRIPT]:
-                break
-        if script in [COMMON_SCRIPT, INHERITED_SCRIPT] and any(character in label for character in ['〆','ー']):
-            # There is a specific exception for U+3006 and U+30FC.
-            # They are part of the Common script, but if not paired with
-            # characters from another script, they must be considered part
-            # of Jpan.
-            script = 'Jpan'
+        else:
+            break
+
+    if script in [COMMON_SCRIPT, INHERITED_SCRIPT] and any(character in label for character in ['〆','ー']):
+        # There is a specific exception for U+3006 and U+30FC.
+        # They are part of the Common script, but if not paired with
+        # characters from another script, they must be considered part
+        # of Jpan.
+        script = 'Jpan'
 
     if script in ['Hira', 'Kana']:
         script = 'Jpan'
-- 
2.43.0


From d4f96839c249eaa70ddb251b0ed7d3da28e0cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:15 +0000
Subject: [PATCH 094/103] fix: the same type of a variant in the table and the
 reference counted as more conservative, contradicting less conservative ones

---
 lgr/tools/idn_review/variant_sets.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 490e448..efcb7ba 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -224,10 +224,15 @@ class VariantComparison:
             return self.IdnTypeCheck.MATCH
 
         result = None
+        same = False
         for r in ['when', 'not-when', 'none']:
             if idn_type[r] == '' or ref_type[r] == '':
                 # '' means not applicable, None mean no type but applicable
                 continue
+            if idn_type[r] == ref_type[r]:
+                # consistent with any difference between the others
+                same = True
+                continue
             try:
                 if self.VARIANT_TYPES_ORDER.index(idn_type[r]) < self.VARIANT_TYPES_ORDER.index(ref_type[r]):
                     new_result = self.IdnTypeCheck.LESS_CONSERVATIVE
@@ -244,6 +249,9 @@ class VariantComparison:
                 result = self.IdnTypeCheck.UNKNOWN
                 break
 
+        if result is None and same:
+            result = self.IdnTypeCheck.MORE_CONSERVATIVE
+
         # result may actually be None if we were not able to make a comparison because we did not have matches between
         # rules, this would lead to a rule related result
         return result
-- 
2.43.0


From 303d53eaf1a6ce9cc7090c477b35ed23a3f160b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:43 +0000
Subject: [PATCH 095/103] fix: IDN table review tool overwrote the report of
 another table or reference of the same name

---
 tools/lgr_idn_table_review.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tools/lgr_idn_table_review.py b/tools/lgr_idn_table_review.py
index c5eb159..e2c36a4 100755
--- a/tools/lgr_idn_table_review.py
+++ b/tools/lgr_idn_table_review.py
@@ -40,7 +40,7 @@ def main():
     unidb: UnicodeDatabase = parser.get_unidb()
 
     reference_lgrs = []
-    for reference_lgr_file in set(args.reference_lgr):
+    for reference_lgr_file in dict.fromkeys(args.reference_lgr):
         ref_lgr = parse_lgr(reference_lgr_file, args.rng, unidb)
         if not ref_lgr:
             logger.error("Cannot parse LGR file %s, skip it", reference_lgr_file)
@@ -48,7 +48,7 @@ def main():
         reference_lgrs.append(ref_lgr)
 
     idn_tables = []
-    for idn_table in set(args.idn_table):
+    for idn_table in dict.fromkeys(args.idn_table):
         # XXX for now only handle LGR format, may add the algorithm to detect and convert from RFC
         lgr = parse_lgr(idn_table, args.rng, unidb)
         if not lgr:
@@ -57,9 +57,17 @@ def main():
         idn_tables.append(lgr)
 
     os.makedirs(args.output, exist_ok=True)
+    written = set()
     for idn_table in idn_tables:
         for reference_lgr in reference_lgrs:
-            with open(os.path.join(args.output, f'{idn_table}_{reference_lgr}.json'), 'w') as f:
+            name = f'{idn_table}_{reference_lgr}'
+            count = 1
+            while name in written:
+                # Several files have the same name
+                count += 1
+                name = f'{idn_table}_{reference_lgr}_{count}'
+            written.add(name)
+            with open(os.path.join(args.output, f'{name}.json'), 'w') as f:
                 f.write(json.dumps(review_lgr(idn_table, reference_lgr), indent=4, default=str))
 
 
-- 
2.43.0


From 216c42ca64b866f3e2ee89fa0331950d9dec0384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:35 +0000
Subject: [PATCH 096/103] fix: labels which are also among the cached indexes
 were reported as colliding with themselves

---
 lgr/tools/diff_collisions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index cda1793..f83034e 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -91,7 +91,8 @@ def _generate_indexes(lgr, labels: List, tlds=None, keep=False, quiet=False, cac
 
     _get_indexes(labels)
     if cached_indexes:
-        _get_indexes(cached_indexes, is_cache=True)
+        # remove labels from the cache as they are already there
+        _get_indexes({label: index for label, index in cached_indexes.items() if label not in labels}, is_cache=True)
     if tlds:
         # remove labels from tlds as we do not want duplicated in label_indexes lists
         _get_indexes(tlds - set(labels), is_tld=True)
-- 
2.43.0


From 86e20e1abb82f8952bc0831a3e51ceef9ac1f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 097/103] fix: short collision report with annotations could
 not be made from a file

---
 lgr/tools/diff_collisions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index f83034e..85ecc78 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -533,8 +533,10 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
     from lgr.tools.annotate import annotate
 
     if with_annotations:
+        # the input is read twice
+        labels_input = list(labels_input)
         yield "# Validity #\n\n"
-        for res in annotate(lgr, deepcopy(labels_input)):
+        for res in annotate(lgr, labels_input):
             yield res
         yield "\n"
 
-- 
2.43.0


From c6351870b0e9bcab2bb6b5910284d96232712828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:43 +0000
Subject: [PATCH 098/103] fix: no variant is computed when no label is selected

---
 lgr/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index b1e9ee7..500f42b 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1176,7 +1176,7 @@ class LGR(object):
             # TODO we may have another method that doesn't retrieve all variants then loop to
             # find with_labels, but only loop on the labels in with_labels, and ensure they
             # share the same index for sanity checking
-            if with_labels and variant_cp not in with_labels:
+            if with_labels is not None and variant_cp not in with_labels:
                 continue
             already_handled.add(variant_cp)
             # Configure log system to redirect logs to local attribute
-- 
2.43.0


From 900a90f4f99dec8a62d50ddd94d70a19401151a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:33 +0000
Subject: [PATCH 099/103] fix: a sequence of the label is written in the
 scripts of the variants of the sequence

---
 lgr/mixed_scripts_variant_filter.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/lgr/mixed_scripts_variant_filter.py b/lgr/mixed_scripts_variant_filter.py
index 1f7c04c..86b2121 100644
--- a/lgr/mixed_scripts_variant_filter.py
+++ b/lgr/mixed_scripts_variant_filter.py
@@ -80,32 +80,30 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
         :param repertoire: The LGR repertoire
         :return: A set of scripts to keep for computation when filtering cross-script variants.
         """
-        scripts = None
-        current_label = label
+        # Scripts in which the end of the label starting at a given position can be written, starting from its last code
+        # point: a code point may be part of several characters (sequences). None when it is any script.
+        scripts = [set() for _ in label] + [None]
 
-        for c in label:
-            scripts_for_char = set()
+        for index in reversed(range(len(label))):
             try:
-                chars_from_prefix = repertoire.get_chars_from_prefix(c, only_variants=True)
+                chars_from_prefix = repertoire.get_chars_from_prefix(label[index], only_variants=True)
             except NotInLGR:
                 # may be a code point from a sequence
                 continue
             for char in chars_from_prefix:
                 # Ensure prefix is valid for label
-                if not char.is_prefix_of(current_label):
+                if not char.is_prefix_of(label[index:]):
                     continue
 
+                scripts_for_char = set()
                 for v in char.get_variants():
                     for cp in v.cp:
                         scripts_for_char.add(self.unidb.get_script(cp))
 
-            scripts_for_char -= self.IGNORED_SCRIPTS
-            if scripts is None:
-                scripts = set(scripts_for_char)
-            else:
-                scripts.intersection_update(scripts_for_char)
-            current_label = current_label[1:]
+                scripts_for_char -= self.IGNORED_SCRIPTS
+                following_scripts = scripts[index + len(char)]
+                if following_scripts is not None:
+                    scripts_for_char &= following_scripts
+                scripts[index] |= scripts_for_char
 
-        if scripts is None:
-            return set()
-        return scripts - self.base_scripts
+        return (scripts[0] or set()) - self.base_scripts
-- 
2.43.0


From 93e08519dbd659a0d266f3916d19d98be0efe5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:25 +0000
Subject: [PATCH 100/103] fix: a variant mixing other scripts is hidden, one
 with common or inherited code points is not

---
 lgr/core.py                         |  4 ++--
 lgr/mixed_scripts_variant_filter.py | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 500f42b..75fc067 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1300,7 +1300,7 @@ class LGR(object):
                 other_script_number = 1
                 for char in chars:
                     other_script_number *= len(
-                        [v for v in vars_excl_reflexive(char) if mixed_script_filter.cp_in_scripts(v.cp, {script})]
+                        [v for v in vars_excl_reflexive(char) if mixed_script_filter.get_cp_script(v.cp) == script]
                     )
                 variant_number += other_script_number
         else:
@@ -1841,7 +1841,7 @@ class LGR(object):
                     if first_call and mixed_script_filter.cp_in_other_scripts(var.cp):
                         rule_logger.debug("Variant script is eligible for non mixed-scripts", format_cp(var.cp))
                         script_filter = mixed_script_filter.get_filter_for_other_script(
-                            self.unicode_database.get_script(var.cp[0]))
+                            mixed_script_filter.get_cp_script(var.cp))
                     elif not mixed_script_filter.cp_in_base_scripts(var.cp):
                         rule_logger.debug("Variant %s contains mixed-scripts", format_cp(var.cp))
                         continue
diff --git a/lgr/mixed_scripts_variant_filter.py b/lgr/mixed_scripts_variant_filter.py
index 86b2121..99011ff 100644
--- a/lgr/mixed_scripts_variant_filter.py
+++ b/lgr/mixed_scripts_variant_filter.py
@@ -1,4 +1,4 @@
-from typing import Set, Tuple
+from typing import Optional, Set, Tuple
 
 from lgr.exceptions import NotInLGR
 from munidata.database import UnicodeDatabase
@@ -56,8 +56,18 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
         self.base_scripts: Set[str] = self._get_base_scripts(label)
         self.other_scripts: Set[str] = self._get_scripts_for_variants(label, repertoire)
 
+    def get_cp_script(self, cp: Tuple[ord]) -> Optional[str]:
+        """
+        Get the script a variant is written in, code points which may be used with any script aside.
+
+        :param cp: The code points of the variant.
+        :return: The script, None if there is not exactly one.
+        """
+        scripts = {self.unidb.get_script(char) for char in cp} - self.IGNORED_SCRIPTS
+        return scripts.pop() if len(scripts) == 1 else None
+
     def cp_in_other_scripts(self, cp: Tuple[ord]) -> bool:
-        return self.cp_in_scripts(cp, self.other_scripts)
+        return self.get_cp_script(cp) in self.other_scripts
 
     def _get_base_scripts(self, label: Tuple[int]) -> Set[str]:
         scripts = set()
@@ -95,12 +105,7 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
                 if not char.is_prefix_of(label[index:]):
                     continue
 
-                scripts_for_char = set()
-                for v in char.get_variants():
-                    for cp in v.cp:
-                        scripts_for_char.add(self.unidb.get_script(cp))
-
-                scripts_for_char -= self.IGNORED_SCRIPTS
+                scripts_for_char = {self.get_cp_script(v.cp) for v in char.get_variants()} - {None}
                 following_scripts = scripts[index + len(char)]
                 if following_scripts is not None:
                     scripts_for_char &= following_scripts
-- 
2.43.0


From 600098aad73f7145ac1da4aca7370b3503bd5784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:02 +0000
Subject: [PATCH 101/103] fix: Georgian is not written in Kannada script, nor
 Achinese in Chinese

---
 lgr/tools/idn_review/whole_label_evaluation_rules.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lgr/tools/idn_review/whole_label_evaluation_rules.py b/lgr/tools/idn_review/whole_label_evaluation_rules.py
index 3cb255a..4c9150e 100644
--- a/lgr/tools/idn_review/whole_label_evaluation_rules.py
+++ b/lgr/tools/idn_review/whole_label_evaluation_rules.py
@@ -19,7 +19,6 @@ logger = logging.getLogger(__name__)
 SAME_SCRIPTS = {
     'Aran': 'Arab',
     'Cyrs': 'Cyrl',
-    'ace': 'zh',
     'yue': 'zh',
     'wuu': 'zh',
     'gan': 'zh',
@@ -42,7 +41,7 @@ SAME_SCRIPTS = {
     'kvk': 'ko',
     'oko': 'ko',
     'okm': 'ko',
-    'ka': 'Knda',
+    'kn': 'Knda',
     'kan': 'Knda',
     'he': 'Hebr',
     'iw': 'Hebr',
-- 
2.43.0


From 1aa427bc095b397a245d30613a1494d1f145c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:59 +0000
Subject: [PATCH 102/103] fix: a label which is not in the LGR does not collide
 in the complete report

---
 lgr/tools/diff_collisions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 85ecc78..50bf5d3 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -306,8 +306,9 @@ def _write_complete_output(labels, label_indexes, tlds=None):
     tlds = tlds or set()
     for idx, collisions in label_indexes.items():
         yield f"\n## Index '{cp_to_ulabel(idx)}' ##\n"
-        colliding_labels = [l for l in collisions if l['label'] in labels]
-        colliding_tlds = [l for l in collisions if l['label'] in tlds]
+        # labels which are not in the LGR may be there as variants, but do not collide
+        colliding_labels = [l for l in collisions if l['label'] in labels and l['cat'] != VARIANT]
+        colliding_tlds = [l for l in collisions if l['label'] in tlds and l['cat'] != VARIANT]
 
         # do not output anything if there is not at least 2 primaries colliding
         if len(colliding_labels) > 1:
-- 
2.43.0


From 9b4284d1480a534c20dce190861fda6a0253b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:00 +0000
Subject: [PATCH 103/103] fix: an LGR is rebuilt with its own Unicode version
 when none is given

---
 lgr/validate/rebuild_lgr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lgr/validate/rebuild_lgr.py b/lgr/validate/rebuild_lgr.py
index ef438a6..db874dc 100644
--- a/lgr/validate/rebuild_lgr.py
+++ b/lgr/validate/rebuild_lgr.py
@@ -30,8 +30,7 @@ def rebuild_lgr(lgr, options):
     # Local import to prevent import cycles
     from lgr.core import LGR
 
-    unicode_version = options.get('unicode_version',
-                                  lgr.metadata.unicode_version)
+    unicode_version = options.get('unicode_version') or lgr.metadata.unicode_version
     validating_repertoire = options.get('validating_repertoire', None)
 
     result = {
-- 
2.43.0

