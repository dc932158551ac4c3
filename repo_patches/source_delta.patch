From 3d19343f701027f0fb10f105143a0e69f11ecc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 01/65] fix: a held children proxy of a DTS collection must
 look at the children's own completion state

It looked at the parents' state: once the parents were read, members of the
following pages were never fetched, and until then every read crawled again.
---
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index cb07add..0693e3a 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -89,7 +89,7 @@ class HttpResolverDtsCollection(DtsCollection):
             self,
             "_children",
             update_lambda=lambda: self._parse_paginated_members(direction="children"),
-            condition_lambda=lambda: self._parsed["parents"]
+            condition_lambda=lambda: self._parsed["children"]
         )
         self._parents = PaginatedProxy(
             self,
-- 
2.43.0


From b9104fb8393619ed8bd32337d980f0ce3c51cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 02/65] fix: len() of a lazily parsed DTS members or parents
 container works before it is complete

---
 MyCapytain/resources/collections/dts/_resolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 0693e3a..219b513 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -52,6 +52,9 @@ class PaginatedProxy:
     def __iter__(self):
         return iter(self._run())
 
+    def __len__(self):
+        return len(self._run())
+
     def __getitem__(self, item):
         if isinstance(self._proxied, (list, dict, set, tuple)):
             # If it is in, we do not update the object
-- 
2.43.0


From c5a6f2d04a5ddd9f8236946ba5fb50757ca4c663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 03/65] fix: a parent of a DTS collection which is already
 known is not listed twice after the parents are crawled

---
 MyCapytain/resources/collections/dts/_resolver.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 219b513..00525dc 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -137,12 +137,12 @@ class HttpResolverDtsCollection(DtsCollection):
                     )
                 })
             else:
-                self.parents.update({
-                    o
-                    for o in type(self).parse_member(
-                        obj=data, collection=self, direction=direction, resolver=self._resolver
-                    )
-                })
+                parents = type(self).parse_member(
+                    obj=data, collection=self, direction=direction, resolver=self._resolver
+                )
+                # Parents which are already known (preset or already crawled) are not added twice
+                known = {parent.id for parent in getattr(self._parents, "_proxied", self._parents)}
+                self.parents.update({o for o in parents if o.id not in known})
             self._last_page_parsed[direction] = page
 
             page = None
-- 
2.43.0


From 61a93bb4e632bca78755a55b3bf11654585f4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 04/65] fix: the next page of a DTS view is read from its page
 parameter only, not from any parameter ending in page

---
 MyCapytain/resolvers/dts/api_v1.py                | 2 +-
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index 1defc8a..c59f9cd 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -26,7 +26,7 @@ __all__ = [
 ]
 
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
+_re_page = re.compile(r"[?&]page=(\d+)")
 
 
 def _parse_ref(ref_dict, default_type: str=None):
diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 00525dc..d6b77c7 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -9,7 +9,7 @@ from ._base import DtsCollection
 
 _hyd = RDF_NAMESPACES.HYDRA
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
+_re_page = re.compile(r"[?&]page=(\d+)")
 
 
 class PaginatedProxy:
-- 
2.43.0


From b5662af3d453ebfd11bb0353479e5614e9e1467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 05/65] fix: the number of members of a DTS collection is the
 one last published, not any one ever seen

---
 MyCapytain/resources/collections/dts/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_base.py b/MyCapytain/resources/collections/dts/_base.py
index 91af7fe..6d5f7bc 100644
--- a/MyCapytain/resources/collections/dts/_base.py
+++ b/MyCapytain/resources/collections/dts/_base.py
@@ -131,7 +131,7 @@ class DtsCollection(Collection):
             self.citation.depth = data[_cite_depth_term][0]["@value"]
 
         for val_dict in data[str(_hyd.totalItems)]:
-            self.metadata.add(_hyd.totalItems, val_dict["@value"])
+            self.metadata.set(_hyd.totalItems, val_dict["@value"])
 
         for val_dict in data.get(str(_hyd.description), []):
             self.metadata.add(_hyd.description, val_dict["@value"], None)
-- 
2.43.0


From c841777613eb93ad324fd6b7a24ad4e1107624b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 06/65] fix: the complete metadata of a DTS collection is
 retrieved only once

---
 MyCapytain/resources/collections/dts/_resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index d6b77c7..9caa935 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -184,6 +184,7 @@ class HttpResolverDtsCollection(DtsCollection):
                     "The contacted endpoint seems to not have any data about collection %s " % self.id
                 )
             self._parse_metadata(expand(data)[0])
+            self._parsed["metadata"] = True
         return True
 
     @classmethod
-- 
2.43.0


From ee8b584cd2dfc57cb95405236d42ad5611d31686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 07/65] fix: errors about unusable DTS answers are ordinary
 exceptions, like every other MyCapytain error

They derived from BaseException only, so that 'except Exception' did not see them.
---
 MyCapytain/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/errors.py b/MyCapytain/errors.py
index d05c5a5..6aeab7d 100644
--- a/MyCapytain/errors.py
+++ b/MyCapytain/errors.py
@@ -14,7 +14,7 @@ class MyCapytainException(BaseException):
     """
 
 
-class JsonLdCollectionMissing(MyCapytainException):
+class JsonLdCollectionMissing(Exception, MyCapytainException):
     """ Error thrown when a JSON LD contains no principle collection
 
     Raised when a json supposed to contain collection is parsed
@@ -85,7 +85,7 @@ class MissingRefsDecl(Exception, MyCapytainException):
     """
 
 
-class PaginationBrowsingError(MyCapytainException):
+class PaginationBrowsingError(Exception, MyCapytainException):
     """ When contacting a remote service and some part of the pages where not reachable or parsable
     """
 
-- 
2.43.0


From 8bcb986b92252a2fddf4e1342175c8a78ebf02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 08/65] fix: an empty DTS navigation answer raises
 PaginationBrowsingError instead of AttributeError

---
 MyCapytain/resolvers/dts/api_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index c59f9cd..b6b12c2 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -113,7 +113,7 @@ class HttpDtsResolver(Resolver):
             data = expand(data)
             if not len(data):
                 raise PaginationBrowsingError(
-                    "The contacted endpoint seems to not have any data about collection %s " % self.id
+                    "The contacted endpoint seems to not have any data about collection %s " % textId
                 )
             data = data[0]
 
-- 
2.43.0


From c39f5662f2afc9e33e1fc429efc30c8282f03ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 09/65] fix: metadata values are found by language whatever the
 case of the tag, also next to values without a language

JSON-LD processors lower-case language tags, so 'en-US' values could not be found,
and a URI among the values raised an AttributeError.
---
 MyCapytain/common/metadata.py               |  5 +++--
 MyCapytain/common/utils/__init__.py         |  2 +-
 MyCapytain/common/utils/_json_ld.py         | 13 +++++++++++++
 MyCapytain/resources/prototypes/metadata.py |  4 ++--
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 082e1c2..b7b82b0 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -7,6 +7,7 @@
 
 
 """
+from MyCapytain.common.utils import is_in_lang
 from MyCapytain.common.utils.xml import make_xml_node
 from MyCapytain.common.constants import Mimetypes, get_graph
 from MyCapytain.common.base import Exportable
@@ -87,7 +88,7 @@ class Metadata(Exportable):
         """
         if lang is not None:
             for o in self.graph.objects(self.asNode(), key):
-                if o.language == lang:
+                if is_in_lang(o, lang):
                     yield o
         else:
             for o in self.graph.objects(self.asNode(), key):
@@ -107,7 +108,7 @@ class Metadata(Exportable):
             default = None
             for o in self.graph.objects(self.asNode(), key):
                 default = o
-                if o.language == lang:
+                if is_in_lang(o, lang):
                     return o
             return default
         else:
diff --git a/MyCapytain/common/utils/__init__.py b/MyCapytain/common/utils/__init__.py
index 30be138..f575035 100644
--- a/MyCapytain/common/utils/__init__.py
+++ b/MyCapytain/common/utils/__init__.py
@@ -13,4 +13,4 @@ from ._generic import (
 )
 from ._graph import Subgraph, expand_namespace
 from ._http import parse_pagination, parse_uri
-from ._json_ld import dict_to_literal, literal_to_dict
+from ._json_ld import dict_to_literal, is_in_lang, literal_to_dict
diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index ffcdeb6..5e5e065 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -1,6 +1,19 @@
 from rdflib import Literal, URIRef
 
 
+def is_in_lang(value, lang):
+    """ Check that a value is in the given language. Language tags are not case sensitive.
+
+    :param value: Object of a triple
+    :type value: Literal or URIRef or BNode
+    :param lang: Language tag
+    :type lang: str
+    :rtype: bool
+    """
+    language = getattr(value, "language", None)
+    return language is not None and language.lower() == lang.lower()
+
+
 def literal_to_dict(value):
     """ Transform an object value into a dict readable value
 
diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 7209e90..0bd0dac 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -9,7 +9,7 @@
 
 from MyCapytain.common.metadata import Metadata
 from MyCapytain.errors import UnknownCollection
-from MyCapytain.common.utils import literal_to_dict, Subgraph
+from MyCapytain.common.utils import is_in_lang, literal_to_dict, Subgraph
 from MyCapytain.common.constants import RDF_NAMESPACES, RDFLIB_MAPPING, Mimetypes, get_graph
 from MyCapytain.common.base import Exportable
 from MyCapytain.common.reference import BaseCitationSet
@@ -135,7 +135,7 @@ class Collection(Exportable):
                 return obj
         for obj in self.graph.objects(self.asNode(), RDFS.label):
             x = obj
-            if x.language == lang:
+            if is_in_lang(x, lang):
                 return x
         return x
 
-- 
2.43.0


From 7ce2dd026e1fe97815708c79861746d5ffd61707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 10/65] fix: the parent and last passages of a DTS document are
 read from their own links

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index 19c466f..d6ad6da 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -96,11 +96,11 @@ class DtsResolverDocument(TeiResource):
             o._next_id = o._dict_to_ref(links.get("next"))
         if links.get("prev"):
             o._prev_id = o._dict_to_ref(links.get("prev"))
-        if links.get("parent"):
+        if links.get("up"):
             o._parent = o._dict_to_ref(links.get("up"))
         if links.get("first"):
             o._first_id = o._dict_to_ref(links.get("first"))
-        if links.get("parent"):
+        if links.get("last"):
             o._last_id = o._dict_to_ref(links.get("last"))
         if links.get("collection"):
             o._collection = o._dict_to_ref(links.get("collection"))
-- 
2.43.0


From c8dd2b8f20be191f4cfe55ef86c5a33d376b300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 11/65] fix: DtsResolverDocument.getReffs lists the references
 of the requested level

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index d6ad6da..2a4a63c 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -66,7 +66,7 @@ class DtsResolverDocument(TeiResource):
         return obj
 
     def getReffs(self, level: int=1, subreference: DtsReference=None):
-        return self.resolver.getReffs(textId=self.id, subreference=(subreference or self.reference))
+        return self.resolver.getReffs(textId=self.id, level=level, subreference=(subreference or self.reference))
 
     def _dict_to_ref(self, header_dic):
         ref = header_dic.get("ref", [None])[0]
-- 
2.43.0


From 752a93ad292377c4c9a557bd3e5c7641372be940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 12/65] fix: a set of a single reference holds that reference,
 not its start and end

---
 MyCapytain/common/reference/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 674042a..dcb0720 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -356,7 +356,7 @@ class BaseReferenceSet(tuple):
 
     """
     def __new__(cls, *refs, citation: BaseCitationSet=None, level: int=1):
-        if len(refs) == 1 and not isinstance(refs, BaseReference):
+        if len(refs) == 1 and not isinstance(refs[0], (BaseReference, str)):
             refs = refs[0]
         obj = tuple.__new__(cls, refs)
         obj._citation = None
-- 
2.43.0


From e279a685c1bea1581817a46d82134b8053b573dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 13/65] fix: decoded XML documents are parsed even when they
 declare their encoding

---
 MyCapytain/common/utils/xml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 8b9d15d..2ec0c5b 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -1,3 +1,4 @@
+import re
 from copy import copy
 from io import StringIO, IOBase
 from xml.sax.saxutils import escape
@@ -22,6 +23,7 @@ __all__ = [
 
 
 _parser = etree.XMLParser(collect_ids=False, resolve_entities=False)
+_re_encoding = re.compile(r"""^(\ufeff?<\?xml[^>]*?)\s+encoding\s*=\s*("[^"]*"|'[^']*')""")
 
 
 def make_xml_node(graph, name, close=False, attributes=None, text="", complete=False, innerXML=""):
@@ -93,7 +95,8 @@ def xmlparser(xml, objectify=True):
     if isinstance(xml, (etree._Element, ObjectifiedElement, etree._ElementTree)):
         return xml
     elif isinstance(xml, text_type):
-        xml = StringIO(xml)
+        # The encoding declared by a document is meaningless (and refused by lxml) once it is decoded
+        xml = StringIO(_re_encoding.sub(r"\1", xml))
         doclose = True
     elif not isinstance(xml, IOBase):
         raise TypeError("Unsupported type of resource {}".format(type(xml)))
-- 
2.43.0


From 83e0ae28f35daddd80fb07b367a3c60b305824aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 14/65] fix: a DTS route which is an absolute URI keeps its own
 host

---
 MyCapytain/common/utils/_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 68d212f..b8bebd4 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -40,6 +40,6 @@ def parse_uri(uri, endpoint_uri):
     """
     temp_parse = urlparse(uri)
     return _Route(
-        urljoin(endpoint_uri, temp_parse.path),
+        urljoin(endpoint_uri, temp_parse._replace(query="", fragment="").geturl()),
         parse_qs(temp_parse.query)
     )
-- 
2.43.0


From fb0909be9467e3b5c68a10541924c6823b29ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 15/65] fix: a DTS reference given as a tuple is requested as a
 range, as documented

---
 MyCapytain/retrievers/dts/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/retrievers/dts/__init__.py b/MyCapytain/retrievers/dts/__init__.py
index cf833bf..1b701b3 100644
--- a/MyCapytain/retrievers/dts/__init__.py
+++ b/MyCapytain/retrievers/dts/__init__.py
@@ -25,6 +25,8 @@ def _parse_ref_parameters(parameters, ref):
             parameters["start"], parameters["end"] = ref
         else:
             parameters["ref"] = ref.start
+    elif isinstance(ref, tuple):
+        parameters["start"], parameters["end"] = ref
     elif ref:
         parameters["ref"] = ref
 
-- 
2.43.0


From db62709bdf6df25377b56bb402fa3a398e2a2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:04 +0000
Subject: [PATCH 16/65] fix: the languages of the descriptions in CTS replies
 are read from xml:lang

---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 3abdd76..12ff1aa 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -159,22 +159,22 @@ class _SharedMethod(InteractiveTextualNode):
         :type xml: Union[lxml.etree._Element]
         """
         for node in xml.xpath(".//ti:groupname", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text)
             self.set_creator(node.text, lang)
 
         for node in xml.xpath(".//ti:title", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text)
             self.set_title(node.text, lang)
 
         for node in xml.xpath(".//ti:label", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text)
             self.set_subject(node.text, lang)
 
         for node in xml.xpath(".//ti:description", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text)
             self.set_description(node.text, lang)
 
-- 
2.43.0


From 04731048801c6813e6932c27d510d8cdaca3dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:04 +0000
Subject: [PATCH 17/65] fix: a passage opened from another CTS passage is asked
 for on the text, not on the current passage

---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 12ff1aa..5a3c855 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -71,7 +71,7 @@ class _SharedMethod(InteractiveTextualNode):
         :returns: List of levels
         """
         if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
             urn = str(self.urn)
 
@@ -100,14 +100,14 @@ class _SharedMethod(InteractiveTextualNode):
         if isinstance(subreference, URN):
             urn = str(subreference)
         elif isinstance(subreference, CtsReference):
-            urn = "{0}:{1}".format(self.urn, str(subreference))
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), str(subreference))
         elif isinstance(subreference, str):
             if ":" in subreference:
                 urn = subreference
             else:
                 urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), subreference)
         elif isinstance(subreference, list):
-            urn = "{0}:{1}".format(self.urn, ".".join(subreference))
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), ".".join(subreference))
         else:
             urn = str(self.urn)
 
@@ -141,7 +141,7 @@ class _SharedMethod(InteractiveTextualNode):
         :raises: *TypeError* when reference is not a list or a Reference
         """
         if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
             urn = str(self.urn)
 
-- 
2.43.0


From 4947a6b5288f9f2fe9cfed1ae0f8c675bd46d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 18/65] fix: a CTS passage without children has no last child
 instead of failing

---
 MyCapytain/resources/texts/remote/cts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 5a3c855..105bbe6 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -266,8 +266,9 @@ class _SharedMethod(InteractiveTextualNode):
         :returns: First children of the graph. Shortcut to self.graph.children[0]
         """
         if self._last is False:
-            # Request the next urn
-            self._last = self.childIds[-1]
+            # Request the children
+            childIds = self.childIds
+            self._last = childIds[-1] if len(childIds) > 0 else None
         return self._last
 
     @staticmethod
-- 
2.43.0


From 5c6c0f79cd3f7f871032bcf1b38aa00c13da9116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 19/65] fix: a CTS passage at the first level has no parent,
 instead of a passage called None

---
 MyCapytain/resources/texts/remote/cts.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 105bbe6..ecb943a 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -426,7 +426,18 @@ class CtsPassage(_SharedMethod, PrototypeCtsPassage, TeiResource):
         :rtype: CtsReference
         :returns: Following passage reference
         """
-        return str(self.urn.reference.parent)
+        parentReference = self.urn.reference.parent
+        if parentReference is not None:
+            return str(parentReference)
+
+    @property
+    def parent(self):
+        """ Parent passage, None if the passage is at the first level of the text
+
+        :rtype: CtsPassage
+        """
+        if self.parentId is not None:
+            return self.getTextualNode(self.parentId)
 
     @property
     def nextId(self):
-- 
2.43.0


From fd084cb5886ded8e6186da1eb994b2b250daee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:09 +0000
Subject: [PATCH 20/65] fix: a CTS error reply raises instead of being taken
 for siblings or a first passage

---
 MyCapytain/resources/texts/remote/cts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index ecb943a..ac7f622 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -18,7 +18,7 @@ from MyCapytain.resources.collections import cts as CtsCollection
 from MyCapytain.resources.prototypes.text import InteractiveTextualNode
 from MyCapytain.resources.prototypes.cts.text import PrototypeCtsText, PrototypeCtsPassage
 from MyCapytain.resources.texts.base.tei import TeiResource
-from MyCapytain.errors import MissingAttribute
+from MyCapytain.errors import MissingAttribute, UnknownObjectError
 
 
 __all__ = [
@@ -219,6 +219,8 @@ class _SharedMethod(InteractiveTextualNode):
                 )
             )
         )
+        if _prev is False:
+            raise UnknownObjectError("The reply does not give the siblings of {}".format(reference))
         return _prev, _next
 
     def getFirstUrn(self, reference=None):
@@ -281,6 +283,8 @@ class _SharedMethod(InteractiveTextualNode):
         :rtype: str
         """
         resource = xmlparser(resource)
+        if len(resource.xpath("//ti:reply", namespaces=XPATH_NAMESPACES)) == 0:
+            raise UnknownObjectError("The reply does not give a first passage")
         urn = resource.xpath("//ti:reply/ti:urn/text()", namespaces=XPATH_NAMESPACES, magic_string=True)
 
         if len(urn) > 0:
-- 
2.43.0


From 73dd1a791f79d64fb821251fa38a351ed79b0163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 21/65] fix: answers in text/xml without a charset are read as
 UTF-8, not as ISO-8859-1

---
 MyCapytain/retrievers/cts5.py         | 5 ++++-
 MyCapytain/retrievers/dts/__init__.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/retrievers/cts5.py b/MyCapytain/retrievers/cts5.py
index ac35030..b3bc16e 100644
--- a/MyCapytain/retrievers/cts5.py
+++ b/MyCapytain/retrievers/cts5.py
@@ -53,7 +53,10 @@ class HttpCtsRetriever(MyCapytain.retrievers.prototypes.CtsRetriever):
 
         request = requests.get(self.endpoint, params=parameters)
         request.raise_for_status()
-        if request.encoding is None:
+        # Without a charset, requests supposes that any text/* answer is in ISO-8859-1
+        if request.encoding is None or (
+                request.encoding == "ISO-8859-1" and
+                "charset" not in request.headers.get("Content-Type", "").lower()):
             request.encoding = "utf-8"
         return request.text
 
diff --git a/MyCapytain/retrievers/dts/__init__.py b/MyCapytain/retrievers/dts/__init__.py
index 1b701b3..9d0c521 100644
--- a/MyCapytain/retrievers/dts/__init__.py
+++ b/MyCapytain/retrievers/dts/__init__.py
@@ -70,7 +70,10 @@ class HttpDtsRetriever(MyCapytain.retrievers.prototypes.API):
             }
         )
         request.raise_for_status()
-        if request.encoding is None:
+        # Without a charset, requests supposes that any text/* answer is in ISO-8859-1
+        if request.encoding is None or (
+                request.encoding == "ISO-8859-1" and
+                "charset" not in request.headers.get("Content-Type", "").lower()):
             request.encoding = "utf-8"
         return request
 
-- 
2.43.0


From 2d44d2190bafc2a574e2c4a2181f8f5b52b1292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:21 +0000
Subject: [PATCH 22/65] fix: title and creator of a CTS text are read from its
 work and text group instead of failing

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index d8003e4..7463462 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -346,7 +346,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Creator string representation
         :rtype: Literal
         """
-        return self.parent.parent.metadata.get_label(lang=lang)
+        return self.parent.parent.get_label(lang=lang)
 
     def get_title(self, lang=None):
         """ Get the DC Title of the object
@@ -355,7 +355,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Title string representation
         :rtype: Literal
         """
-        return self.parent.metadata.get_label(lang=lang)
+        return self.parent.get_label(lang=lang)
 
     def get_description(self, lang=None):
         """ Get the DC description of the object
-- 
2.43.0


From 75535e96e86b50d157000a1a7ae5ee3be6a6170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 23/65] fix: structured metadata keep their text when it looks
 like a number or a boolean

---
 MyCapytain/resources/collections/cts.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 0b19ef7..75ef825 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -11,7 +11,7 @@ from __future__ import unicode_literals
 
 from rdflib import URIRef, Literal
 from rdflib.namespace import XSD
-from lxml.objectify import IntElement, FloatElement
+from lxml.objectify import BoolElement, IntElement, FloatElement
 
 from MyCapytain.resources.prototypes.cts import inventory as cts
 from MyCapytain.common.reference._capitains_cts import Citation as CitationPrototype
@@ -111,11 +111,12 @@ def _parse_structured_metadata(obj, xml):
         if "{" in tag:
             ns, tag = tuple(tag.split("}"))
             tag = URIRef(ns[1:]+tag)
-            s_m = str(metadata)
+            # str() of an objectified element is its Python value: "007" would become "7" and "true" "True"
+            s_m = metadata.text or ""
             if s_m.startswith("urn:") or s_m.startswith("http:") or s_m.startswith("https:") or s_m.startswith("hdl:"):
                 obj.metadata.add(
                     tag,
-                    URIRef(str(metadata))
+                    URIRef(s_m)
                 )
             elif '{http://www.w3.org/XML/1998/namespace}lang' in metadata.attrib:
                 obj.metadata.add(
@@ -129,7 +130,7 @@ def _parse_structured_metadata(obj, xml):
                     if not datatype.startswith("http") and ":" in datatype:
                         datatype = expand_namespace(metadata.nsmap, datatype)
                     obj.metadata.add(tag, Literal(s_m, datatype=URIRef(datatype)))
-                elif isinstance(metadata, IntElement):
+                elif isinstance(metadata, IntElement) and not isinstance(metadata, BoolElement):
                     obj.metadata.add(tag, Literal(int(metadata), datatype=XSD.integer))
                 elif isinstance(metadata, FloatElement):
                     obj.metadata.add(tag, Literal(float(metadata), datatype=XSD.float))
-- 
2.43.0


From c3be32fa7788688a74018e46e2c4a8d5ea5b2355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:20 +0000
Subject: [PATCH 24/65] fix: a CTS property without any value is None instead
 of raising StopIteration

---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 7463462..01cf77a 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -80,7 +80,7 @@ class PrototypeCtsCollection(Collection):
         if lang is not None:
             if lang in x:
                 return x[lang]
-            return next(iter(x.values()))
+            return next(iter(x.values()), None)
         return x
 
     def set_cts_property(self, prop, value, lang=None):
-- 
2.43.0


From 114727bc15162e77cb9ca56a2527e42d30deb44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:44 +0000
Subject: [PATCH 25/65] fix: files of local repositories are read in the
 encoding they declare, not in the locale's

---
 MyCapytain/resolvers/cts/local.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 0b22428..b25b019 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -118,7 +118,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :return: Parsed Text
         :rtype: CapitainsCtsText
         """
-        with open(path) as f:
+        with io.open(path, "rb") as f:
             o = self.classes["text"](urn=identifier, resource=self.xmlparse(f))
         return o
 
@@ -143,7 +143,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type cts_file: str
         :return: CtsTextgroupMetadata and Current file
         """
-        with io.open(cts_file) as __xml__:
+        with io.open(cts_file, "rb") as __xml__:
             return self.classes["textgroup"].parse(
                 resource=__xml__
             ), cts_file
@@ -173,7 +173,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type textgroup: CtsTextgroupMetadata
         :return: Parsed Work and the Texts, as well as the current file directory
         """
-        with io.open(cts_file) as __xml__:
+        with io.open(cts_file, "rb") as __xml__:
             work, texts = self.classes["work"].parse(
                 resource=__xml__,
                 parent=textgroup,
@@ -338,7 +338,7 @@ class CtsCapitainsLocalResolver(Resolver):
         text = self.inventory[str(urn)]
 
         if os.path.isfile(text.path):
-            with io.open(text.path) as __xml__:
+            with io.open(text.path, "rb") as __xml__:
                 resource = self.classes["text"](urn=urn, resource=self.xmlparse(__xml__))
         else:
             resource = None
-- 
2.43.0


From a360a1f63694b221e2f9a909d30fba041a9dad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:14 +0000
Subject: [PATCH 26/65] fix: merging text groups does not detach copied works
 from the shared graph

---
 MyCapytain/resources/prototypes/cts/inventory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 01cf77a..6812ab6 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -595,10 +595,12 @@ class CtsTextgroupMetadata(PrototypeCtsCollection):
             raise InvalidURN("Cannot add CtsTextgroupMetadata %s to CtsTextgroupMetadata %s " % (self.urn, other.urn))
 
         for urn, work in other.works.items():
+            # Copies keep sharing the graph: a copy of it would not know what is added later about the work
+            work = deepcopy(work, {id(work.graph): work.graph})
             if urn in self.works:
-                self.works[urn].update(deepcopy(work))
+                self.works[urn].update(work)
             else:
-                self.works[urn] = deepcopy(work)
+                self.works[urn] = work
             self.works[urn].parent = self
             self.works[urn].resource = None
 
-- 
2.43.0


From bb40904436fe31de27615f98bafd9d4159d2215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:51 +0000
Subject: [PATCH 27/65] fix: a file which can't be parsed is skipped when
 RAISE_ON_GENERIC_PARSING_ERROR is off

---
 MyCapytain/resolvers/cts/local.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index b25b019..052e074 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -286,15 +286,19 @@ class CtsCapitainsLocalResolver(Resolver):
         for folder in resource:
             cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=folder))
             for cts_file in cts_files:
-                textgroup, cts_file = self._parse_textgroup_wrapper(cts_file)
-                textgroups.append((textgroup, cts_file))
+                parsed = self._parse_textgroup_wrapper(cts_file)
+                # Unless RAISE_ON_GENERIC_PARSING_ERROR is set, files which can't be parsed are ignored
+                if parsed is not None:
+                    textgroups.append(parsed)
 
         for textgroup, cts_textgroup_file in textgroups:
             cts_work_files = glob("{parent}/*/__cts__.xml".format(parent=os.path.dirname(cts_textgroup_file)))
 
             for cts_work_file in cts_work_files:
-                _, parsed_texts, directory = self._parse_work_wrapper(cts_work_file, textgroup)
-                texts.extend([(text, directory) for text in parsed_texts])
+                parsed = self._parse_work_wrapper(cts_work_file, textgroup)
+                if parsed is not None:
+                    _, parsed_texts, directory = parsed
+                    texts.extend([(text, directory) for text in parsed_texts])
 
         for text, directory in texts:
             # If text_id is not none, the text parsing errored
-- 
2.43.0


From 4e1f0177c2d798a9dda123fec3da9bdf400732e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:52 +0000
Subject: [PATCH 28/65] fix: a work which can't be parsed is not left half
 parsed in its text group

---
 MyCapytain/resources/collections/cts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 75ef825..eadf75f 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -262,7 +262,7 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
         :type parent: XmlCtsTextgroupMetadata
         """
         xml = xmlparser(resource)
-        o = cls(urn=xml.get("urn"), parent=parent)
+        o = cls(urn=xml.get("urn"))
 
         lang = xml.get("{http://www.w3.org/XML/1998/namespace}lang")
         if lang is not None:
@@ -290,6 +290,10 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
 
         _parse_structured_metadata(o, xml)
 
+        # The parent only gets to know works which are completely parsed
+        if parent is not None:
+            o.parent = parent
+
         if _with_children:
             return o, children
         return o
-- 
2.43.0


From 7453cc5195db306d3447b9d2ee3de28bdf14eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 29/65] fix: passages are cut at the right element when another
 one has the same content

---
 MyCapytain/common/utils/xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 2ec0c5b..8dcc8ab 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -226,7 +226,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         # For each sibling, when we need them in the context of a range
         if preceding_siblings or following_siblings:
             for sibling in xmliter(parent):
-                if sibling == result_1:
+                if sibling is result_1:
                     central = True
                     # We copy the node we looked for (Result_1)
                     child = copyNode(result_1, children=has_no_queue, parent=new_tree)
@@ -267,7 +267,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         else:
             result_2 = result_1
 
-        if result_1 == result_2:
+        if result_1 is result_2:
             has_no_queue = len(queue_1) == 0
             child = copyNode(result_1, children=has_no_queue, parent=new_tree)
             if not has_no_queue:
@@ -286,13 +286,13 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
                 if start:
                     # If we are at the end
                     # We break the copy
-                    if sibling == result_2:
+                    if sibling is result_2:
                         break
                     else:
                         copyNode(sibling, parent=new_tree, children=True)
                 # If this is start
                 # Then we copy it and initiate star
-                elif sibling == result_1:
+                elif sibling is result_1:
                     start = True
                     has_no_queue_1 = len(queue_1) == 0
                     node = copyNode(sibling, children=has_no_queue_1, parent=new_tree)
-- 
2.43.0


From 9afebba5cc0fef3880ba9f8e070c77519aa27da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 30/65] fix: comments and processing instructions of a range do
 not become elements

---
 MyCapytain/common/utils/xml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 8dcc8ab..5658cc8 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -164,7 +164,13 @@ def copyNode(node, children=False, parent=False):
     :param parent: Append copied node to parent if given
     :return: New Element
     """
-    if parent is not False:
+    if parent is not False and children:
+        # Not rebuilt from its tag: it may be a comment or a processing instruction
+        element = copy(node)
+        element.tail = None
+        parent.append(element)
+        return element
+    elif parent is not False:
         element = SubElement(
             parent,
             node.tag,
-- 
2.43.0


From b58a8fb015e86bd9710e25bc73dd86f881b0b527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 31/65] fix: the URN of a work does not open an edition of
 another work it is a prefix of

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 052e074..7290ab0 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -330,7 +330,7 @@ class CtsCapitainsLocalResolver(Resolver):
                 urn = [
                     t.id
                     for t in self.texts
-                    if t.id.startswith(str(urn)) and isinstance(t, CtsEditionMetadata)
+                    if t.id.startswith("{}.".format(urn)) and isinstance(t, CtsEditionMetadata)
                 ]
                 if len(urn) > 0:
                     urn = URN(urn[0])
-- 
2.43.0


From 055872f5c06fe15e161f815ca9dd047a33818262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 32/65] fix: the passage after or before a passage knows its
 whole text

---
 MyCapytain/resources/texts/local/capitains/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index ef01fc8..ba601e0 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -678,14 +678,14 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
         """ Next CapitainsCtsPassage (Interactive CapitainsCtsPassage)
         """
         if self.nextId is not None:
-            return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.nextId)
+            return self.getTextualNode(subreference=self.nextId)
 
     @property
     def prev(self):
         """ Previous CapitainsCtsPassage (Interactive CapitainsCtsPassage)
         """
         if self.prevId is not None:
-            return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.prevId)
+            return self.getTextualNode(subreference=self.prevId)
 
     def getTextualNode(self, subreference=None, *args, **kwargs):
         if not isinstance(subreference, CtsReference):
-- 
2.43.0


From c9ef625a33b9c710156036c17260ad5d83f28268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:01 +0000
Subject: [PATCH 33/65] fix: exporting only some metadata neither changes the
 list of what is asked nor misses keys given as strings

---
 MyCapytain/common/metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index b7b82b0..91f4b6e 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -167,10 +167,12 @@ class Metadata(Exportable):
         graph.namespace_manager = get_graph().namespace_manager
 
         if only is not None:
-            _only = only
+            _only = []
             only = [str(s) for s in only]
             for predicate in set(self.graph.predicates(subject=self.asNode())):
-                if str(predicate) not in only:
+                if str(predicate) in only:
+                    _only.append(predicate)
+                else:
                     prefix, namespace, name = self.graph.compute_qname(predicate)
                     if str(namespace) in only:
                         _only.append(predicate)
-- 
2.43.0


From 3a287a6f29be0a4231b8637365c7f6b377dad461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:42 +0000
Subject: [PATCH 34/65] fix: deleting a collection removes its own metadata,
 not those of the collection it is deleted from

---
 MyCapytain/resources/prototypes/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 0bd0dac..8c864fd 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -231,8 +231,8 @@ class Collection(Exportable):
         # Delete the graph Item
         self.graph.remove((item.asNode(), None, None))
         self.graph.remove((None, None, item.asNode()))
-        self.metadata.remove()
-        self.metadata.unlink()
+        item.metadata.remove()
+        item.metadata.unlink()
         # Delete the Python item
         if len(item.parents) > 0:
             del item.parents[0].children[item.id]
-- 
2.43.0


From a6def34092329e7aecc33dc2f5be9222fc3a3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:59 +0000
Subject: [PATCH 35/65] fix: attributes of exported XML nodes are escaped

---
 MyCapytain/common/utils/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 5658cc8..742134e 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -46,7 +46,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
                 name,
                 " ".join(
                     [
-                        "{}=\"{}\"".format(attr_name, attr_value)
+                        "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                         for attr_name, attr_value in attributes.items()
                     ]
                 ),
@@ -61,7 +61,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
             name,
             " ".join(
                 [
-                    "{}=\"{}\"".format(attr_name, attr_value)
+                    "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                     for attr_name, attr_value in attributes.items()
                 ]
             )
-- 
2.43.0


From 2eaa62e65877166e134dbc981c9e4e4a8da280c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:06 +0000
Subject: [PATCH 36/65] fix: exporting a CTS collection does not depend on the
 predicates of other objects of the graph

---
 MyCapytain/resources/prototypes/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 8c864fd..de3c676 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -287,7 +287,11 @@ class Collection(Exportable):
         nm = self.graph.namespace_manager
         bindings = {}
         for predicate in set(self.graph.predicates()):
-            prefix, namespace, name = nm.compute_qname(predicate)
+            try:
+                prefix, namespace, name = nm.compute_qname(predicate)
+            except ValueError:
+                # The graph is shared: what cannot be an XML name belongs to another object
+                continue
             if prefix != "":
                 bindings["xmlns:" + prefix] = str(URIRef(namespace))#[:-1]
             else:
-- 
2.43.0


From f906fdcec62b90f9327b0654b8e6ecfdd2d98dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 37/65] fix: the datatype of exported structured metadata is
 written in rdf:datatype, where it is read

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 91f4b6e..d187a16 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -226,7 +226,7 @@ class Metadata(Exportable):
                 if hasattr(obj, "language") and obj.language is not None:
                     kwargs["xml:lang"] = obj.language
                 if hasattr(obj, "datatype") and obj.datatype is not None:
-                    kwargs["rdf:type"] = obj.datatype
+                    kwargs["rdf:datatype"] = obj.datatype
                 strings.append(make_xml_node(graph, pred, text=obj, attributes=kwargs, complete=True))
             del graph
             return "\n".join(strings)
-- 
2.43.0


From adf6c8f3795bab04041dbb2f4cdbf26c988d9fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:39 +0000
Subject: [PATCH 38/65] fix: a collection of inventories exports its structured
 metadata, as it says it can

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 6812ab6..4458a97 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -730,7 +730,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
         :param namespaces: List namespaces in main node
         :returns: Desired output formated resource
         """
-        if output == Mimetypes.XML.CTS:
+        if output == Mimetypes.XML.CTS or output == Mimetypes.XML.CapiTainS.CTS:
             attrs = {}
             if self.id:
                 attrs["tiid"] = self.id
@@ -741,7 +741,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
                 members=[
                     m for inv in self.members for m in inv.members
                 ],
-                output=Mimetypes.XML.CTS
+                output=output
             )
         elif output == Mimetypes.JSON.DTS.Std:
             if len(self.members) > 1:
-- 
2.43.0


From 47f505023dedcc7dfb7953488115e8d31354eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:48 +0000
Subject: [PATCH 39/65] fix: the language of an edition is read from its own
 xml:lang when it has one, like that of other texts

---
 MyCapytain/resources/collections/cts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index eadf75f..97f210b 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -211,7 +211,11 @@ class XmlCtsEditionMetadata(cts.CtsEditionMetadata, XmlCtsTextMetadata):
     @classmethod
     def parse(cls, resource, parent=None):
         xml = xmlparser(resource)
+        lang = xml.get("{http://www.w3.org/XML/1998/namespace}lang")
+
         o = cls(urn=xml.get("urn"), parent=parent)
+        if lang is not None:
+            o.lang = lang
         cls.parse_metadata(o, xml)
         return o
 
-- 
2.43.0


From 501b3c77e39855467945306bd9f0bde83be0d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:41 +0000
Subject: [PATCH 40/65] fix: links to other objects in DTS metadata are read
 instead of failing

---
 MyCapytain/common/utils/_json_ld.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index 5e5e065..7761bd9 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -35,7 +35,9 @@ def literal_to_dict(value):
 def dict_to_literal(dict_container: dict):
     """ Transforms a JSON+LD PyLD dictionary into
     an RDFLib object"""
-    if isinstance(dict_container["@value"], int):
+    if "@id" in dict_container:
+        return URIRef(dict_container["@id"]),
+    elif isinstance(dict_container["@value"], int):
         return dict_container["@value"],
     else:
         return dict_container["@value"], dict_container.get("@language", None)
\ No newline at end of file
-- 
2.43.0


From 8751e4047103528c4fec894f36ea7cf7a13a6405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:41 +0000
Subject: [PATCH 41/65] fix: the prefixes of the types in a DTS export are
 declared in its context

---
 MyCapytain/resources/prototypes/metadata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index de3c676..074dac4 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -369,6 +369,11 @@ class Collection(Exportable):
                 prefix, namespace, name = nsm.compute_qname(predicate)
                 if prefix not in bindings and str(namespace) not in ignore_ns_for_bindings:
                     bindings[prefix] = str(URIRef(namespace))
+            # Types are written with prefixes as well
+            for type_ in {self.type}.union(member.type for member in self.members):
+                prefix, namespace, name = nsm.compute_qname(type_)
+                if str(namespace) != _ns_hydra_str:
+                    bindings[prefix] = str(URIRef(namespace))
 
             # Builds the specific Store data
             extensions = {}
-- 
2.43.0


From 527b0e44b8d56b21f9cd350deb869832ad9d5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:41 +0000
Subject: [PATCH 42/65] fix: collections are exported to RDF and JSON-LD, as
 they say they can

---
 MyCapytain/resources/prototypes/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 074dac4..0bc09e6 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -441,7 +441,7 @@ class Collection(Exportable):
                 or output == Mimetypes.XML.RDF:
 
             # We create a temp graph
-            store = Subgraph(get_graph().namespace_manager)
+            store = Subgraph(dict(get_graph().namespace_manager.namespaces()))
             store.graphiter(self.graph, self.asNode(), ascendants=1, descendants=-1)
 
             o = store.serialize(format=RDFLIB_MAPPING[output], auto_compact=True, indent="")
-- 
2.43.0


From f525990c389e986330e1a90e860e2e13b6b365cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:41 +0000
Subject: [PATCH 43/65] fix: a DTS collection read with its parents as members
 gets them as parents

---
 MyCapytain/resources/collections/dts/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_base.py b/MyCapytain/resources/collections/dts/_base.py
index 6d5f7bc..5fb03c0 100644
--- a/MyCapytain/resources/collections/dts/_base.py
+++ b/MyCapytain/resources/collections/dts/_base.py
@@ -111,7 +111,7 @@ class DtsCollection(Collection):
                 for coll in members
             })
         else:
-            self.parents.add(members)
+            self.parents.update(members)
 
     def _parse_metadata(self, data: dict):
 
-- 
2.43.0


From dc97b465b068acfb7e2e761814b27eae1c6dd848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:12 +0000
Subject: [PATCH 44/65] fix: the only citation level of a text is part of its
 DTS export

---
 MyCapytain/resources/prototypes/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 0bc09e6..e2715dd 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -428,7 +428,8 @@ class Collection(Exportable):
                 if self.citation.depth:
                     o[graph.qname(RDF_NAMESPACES.DTS.term("citeDepth"))] = self.citation.depth
 
-                if not self.citation.is_empty():
+                # A citation with no level under it is still a level, which a set is not
+                if not self.citation.is_empty() or getattr(self.citation, "name", None) is not None:
                     o[graph.qname(RDF_NAMESPACES.DTS.term("citeStructure"))] = self.citation.export(
                         Mimetypes.JSON.DTS.Std,
                         context=False,
-- 
2.43.0


From 048e5d22fa01b222492f16af12cc248762dce28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 45/65] fix: typed values (dates for example) of DTS metadata
 are written in JSON and read with their type

---
 MyCapytain/common/utils/_json_ld.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index 7761bd9..0e5e527 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -1,4 +1,5 @@
 from rdflib import Literal, URIRef
+from rdflib.namespace import XSD
 
 
 def is_in_lang(value, lang):
@@ -24,7 +25,11 @@ def literal_to_dict(value):
     if isinstance(value, Literal):
         if value.language is not None:
             return {"@value": str(value), "@language": value.language}
-        return value.toPython()
+        native = value.toPython()
+        if value.datatype not in (None, XSD.string) and not isinstance(native, (int, float)):
+            # JSON has no such type
+            return {"@value": str(value), "@type": str(value.datatype)}
+        return native
     elif isinstance(value, URIRef):
         return {"@id": str(value)}
     elif value is None:
@@ -37,6 +42,8 @@ def dict_to_literal(dict_container: dict):
     an RDFLib object"""
     if "@id" in dict_container:
         return URIRef(dict_container["@id"]),
+    elif "@type" in dict_container:
+        return Literal(dict_container["@value"], datatype=URIRef(dict_container["@type"])),
     elif isinstance(dict_container["@value"], int):
         return dict_container["@value"],
     else:
-- 
2.43.0


From 4f6213123fec810edb210119693c6b69b8d182aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:27 +0000
Subject: [PATCH 46/65] fix: an identifier which is also a string in the graph
 does not hide the object from exports

---
 MyCapytain/common/utils/_graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/common/utils/_graph.py b/MyCapytain/common/utils/_graph.py
index fe043b0..592a337 100644
--- a/MyCapytain/common/utils/_graph.py
+++ b/MyCapytain/common/utils/_graph.py
@@ -38,7 +38,8 @@ class Subgraph(object):
         if desc != 0:
             desc -= 1
 
-        t = str(target)
+        # The node itself : a literal with the same characters is not the node
+        t = target
 
         if descendants != 0 and self.downwards[t] is True:
             self.downwards[t] = False
@@ -48,7 +49,7 @@ class Subgraph(object):
                 self.add((target, pred, obj))
 
                 # Retrieve triples about the object
-                if desc != 0 and self.downwards[str(obj)] is True:
+                if desc != 0 and self.downwards[obj] is True:
                     self.graphiter(graph, target=obj, ascendants=0, descendants=desc)
 
         if ascendants != 0 and self.updwards[t] is True:
@@ -59,7 +60,7 @@ class Subgraph(object):
                 self.add((s, p, target))
 
                 # Retrieve triples about the parent as object
-                if asc != 0 and self.updwards[str(s)] is True:
+                if asc != 0 and self.updwards[s] is True:
                     self.graphiter(graph, target=s, ascendants=asc, descendants=0)
 
     def serialize(self, *args, **kwargs):
-- 
2.43.0


From 1356a50a69f7dd8ec79a1a1f27985cf7134be52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:02 +0000
Subject: [PATCH 47/65] fix: copies and pickles of DTS references lost their
 start and end

---
 MyCapytain/common/reference/_base.py          | 4 ++++
 MyCapytain/common/reference/_capitains_cts.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index dcb0720..d26336c 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -327,6 +327,10 @@ class BaseReference(tuple):
 
         return obj
 
+    def __getnewargs__(self):
+        # Copies and pickles are made out of the start and the end, not out of a tuple
+        return tuple(self)
+
     def is_range(self) -> int:
         return bool(self[1])
 
diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 0353b07..caea70a 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -171,6 +171,9 @@ class CtsReference(BaseReference):
 
         return o
 
+    def __getnewargs__(self):
+        return tuple(self),
+
     @property
     def parent(self) -> Optional['CtsReference']:
         """ Parent of the actual URN, for example, 1.1 for 1.1.1
-- 
2.43.0


From 8d6a2002e7437457015c0884d602e3767c771ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:02 +0000
Subject: [PATCH 48/65] fix: copies of the word of a CTS reference got a second
 @

---
 MyCapytain/common/reference/_capitains_cts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index caea70a..12d7464 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -47,6 +47,10 @@ class CtsWordReference(str):
 
         return obj
 
+    def __getnewargs__(self):
+        # The @ is added by the constructor
+        return self[1:],
+
     def tuple(self) -> Tuple[str, int]:
         return self.word, self.counter
 
-- 
2.43.0


From fe0f22445e2b7e72b5263e397ed8d098ca5b642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:02 +0000
Subject: [PATCH 49/65] fix: DTS references both equal and differ, and sets of
 them can't be compared with anything else

---
 MyCapytain/common/reference/_dts_1.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index 6074313..c6dc21d 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -37,6 +37,11 @@ class DtsReference(BaseReference):
             isinstance(other, DtsReference) and \
             self.type == other.type
 
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = BaseReference.__hash__
+
     def __repr__(self):
         return "<DtsReference <{}> [{}]>".format(
             "><".join([str(x) for x in self if x]),
@@ -50,11 +55,16 @@ class DtsReferenceSet(BaseReferenceSet):
                BaseReferenceSet.__contains__(self, DtsReference(item))
 
     def __eq__(self, other):
-        return super(DtsReferenceSet, self).__eq__(other) and \
+        return isinstance(other, DtsReferenceSet) and \
+            super(DtsReferenceSet, self).__eq__(other) and \
             self.level == other.level and \
-            isinstance(other, DtsReferenceSet) and \
             self.citation == other.citation
 
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = BaseReferenceSet.__hash__
+
 
 class DtsCitation(BaseCitation):
     def __init__(self, name=None, children=None, root=None):
-- 
2.43.0


From 4dd8ce8fb24e5539273853b0321aec4a614d3b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:02 +0000
Subject: [PATCH 50/65] fix: a set of typed DTS references did not contain them
 as strings

---
 MyCapytain/common/reference/_dts_1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index c6dc21d..43162cb 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -51,8 +51,9 @@ class DtsReference(BaseReference):
 
 class DtsReferenceSet(BaseReferenceSet):
     def __contains__(self, item: str) -> bool:
+        # A reference given as a string has no type
         return BaseReferenceSet.__contains__(self, item) or \
-               BaseReferenceSet.__contains__(self, DtsReference(item))
+               (isinstance(item, str) and any(tuple(ref) == (item, None) for ref in self))
 
     def __eq__(self, other):
         return isinstance(other, DtsReferenceSet) and \
-- 
2.43.0


From 0331d4ef344975c77352d1e04fd4708175fbe9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:20 +0000
Subject: [PATCH 51/65] fix: levels added to or nested in a citation scheme did
 not lead to its root

---
 MyCapytain/common/reference/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index d26336c..7c88722 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -61,6 +61,7 @@ class BaseCitationSet(Exportable):
         :return:
         """
         if isinstance(child, BaseCitation):
+            child.root = self.root if isinstance(self, BaseCitation) else self
             self._children.append(child)
 
     def __iter__(self):
@@ -242,6 +243,9 @@ class BaseCitation(BaseCitationSet):
         :return:
         """
         self._root = value
+        # What is under this level has the same root
+        for child in self._children:
+            child.root = self.root
 
     @property
     def name(self) -> str:
-- 
2.43.0


From a0cd804e71a09d8dceb975cd2be573ccb52ccd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:34 +0000
Subject: [PATCH 52/65] fix: names of levels are escaped in TEI exports of
 citations

---
 MyCapytain/common/reference/_capitains_cts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 12d7464..5dd4f92 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -1,6 +1,7 @@
 import re
 from typing import Optional, List, Union, Tuple
 from lxml.etree import _Element
+from xml.sax.saxutils import escape
 
 from MyCapytain.common.constants import Mimetypes, get_graph, RDF_NAMESPACES, XPATH_NAMESPACES
 from MyCapytain.common.utils.xml import make_xml_node
@@ -912,7 +913,7 @@ class Citation(BaseCitation):
 
             label = ""
             if self.name is not None:
-                label = self.name
+                label = escape(self.name, {"\"": "&quot;"})
 
             return \
                 "<tei:cRefPattern n=\"{label}\" matchPattern=\"{regexp}\" replacementPattern=\"#xpath({refsDecl})\">" \
-- 
2.43.0


From 1a1b5d7e9813031ee60f6e01cbddab8e051fac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:38 +0000
Subject: [PATCH 53/65] fix: exports of collections without any CTS property
 were not in the CTS namespace

---
 MyCapytain/resources/prototypes/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index e2715dd..1c9954e 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -286,7 +286,8 @@ class Collection(Exportable):
         """
         nm = self.graph.namespace_manager
         bindings = {}
-        for predicate in set(self.graph.predicates()):
+        # The elements of the export are in the CTS namespace, whether or not there are properties which are
+        for predicate in set(self.graph.predicates()) | {RDF_NAMESPACES.CTS.term("urn")}:
             try:
                 prefix, namespace, name = nm.compute_qname(predicate)
             except ValueError:
-- 
2.43.0


From 57d9575158227a25d2986fa1ab49d081d43cba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:49 +0000
Subject: [PATCH 54/65] fix: DTS exports with a namespace manager raised
 AttributeError

---
 MyCapytain/resources/prototypes/metadata.py | 22 ++++++++++-----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 1c9954e..06086e8 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -343,18 +343,16 @@ class Collection(Exportable):
 
             # Set-up a derived Namespace Manager
             if not namespace_manager:
-                nsm = {
-                    prefix: ns
-                    for prefix, ns in self.graph.namespace_manager.namespaces()
-                    if str(ns) not in [_ns_cap_str, _ns_cts_str, _ns_dts_str, _ns_dct_str, _ns_hydra_str]
-                }
-                nsm[""] = RDF_NAMESPACES.HYDRA
-                nsm["cts"] = RDF_NAMESPACES.CTS
-                nsm["dts"] = RDF_NAMESPACES.DTS
-                nsm["dct"] = DCTERMS
-
-            else:
-                nsm = namespace_manager.namespaces()
+                namespace_manager = self.graph.namespace_manager
+            nsm = {
+                prefix: ns
+                for prefix, ns in namespace_manager.namespaces()
+                if str(ns) not in [_ns_cap_str, _ns_cts_str, _ns_dts_str, _ns_dct_str, _ns_hydra_str]
+            }
+            nsm[""] = RDF_NAMESPACES.HYDRA
+            nsm["cts"] = RDF_NAMESPACES.CTS
+            nsm["dts"] = RDF_NAMESPACES.DTS
+            nsm["dct"] = DCTERMS
 
             # Set-up a derived graph
             store = Subgraph(nsm)
-- 
2.43.0


From 12cdfe7a8198b497f09684410f527c924c68b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 55/65] fix: the page after the last full page of a listing was
 empty, the default page had no number

---
 MyCapytain/resolvers/cts/local.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 7290ab0..d21a0d8 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -407,8 +407,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :param length: Length of the list to paginate
         :return: (Start Index, End Index, Page Number, Item Count)
         """
-        realpage = page
-        page = page or CtsCapitainsLocalResolver.DEFAULT_PAGE
+        realpage = page = page or CtsCapitainsLocalResolver.DEFAULT_PAGE
         limit = limit or CtsCapitainsLocalResolver.PER_PAGE[1]
 
         if limit < CtsCapitainsLocalResolver.PER_PAGE[0] or limit > CtsCapitainsLocalResolver.PER_PAGE[2]:
@@ -416,8 +415,8 @@ class CtsCapitainsLocalResolver(Resolver):
 
         page = (page - 1) * limit
 
-        if page > length:
-            realpage = int(ceil(length / limit))
+        if page >= length:
+            realpage = max(1, int(ceil(length / limit)))
             page = limit * (realpage - 1)
             count = length - 1
         elif limit - 1 + page < length:
-- 
2.43.0


From 8007d68c5a876f00d072a85a8480726bb327a065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:10 +0000
Subject: [PATCH 56/65] fix: a collection of inventories without any could not
 be exported to DTS, nor with a namespace manager

---
 MyCapytain/resources/prototypes/cts/inventory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 4458a97..3a91eca 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -720,7 +720,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
             for text in work.texts.values()
         ])
 
-    def __export__(self, output=None, domain="", namespaces=True):
+    def __export__(self, output=None, domain="", namespaces=True, **kwargs):
         """ Create a {output} version of the CtsTextInventoryMetadata
 
         :param output: Format to be chosen
@@ -744,7 +744,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
                 output=output
             )
         elif output == Mimetypes.JSON.DTS.Std:
-            if len(self.members) > 1:
-                return Collection.__export__(self, output=output)
+            if len(self.members) != 1:
+                return Collection.__export__(self, output=output, **kwargs)
             else:
-                return self.members[0].export(output=output)
+                return self.members[0].export(output=output, **kwargs)
-- 
2.43.0


From be8c107d7c15668976fe9bf45f7aba27dba7e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:54 +0000
Subject: [PATCH 57/65] fix: exports took their prefixes from the current
 graph, not from that of the object

---
 MyCapytain/common/metadata.py                    |  2 +-
 MyCapytain/common/reference/_capitains_cts.py    | 10 +++++++---
 MyCapytain/resources/prototypes/cts/inventory.py |  2 +-
 MyCapytain/resources/prototypes/metadata.py      |  2 +-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index d187a16..615a0c4 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -164,7 +164,7 @@ class Metadata(Exportable):
         .. warning:: exclude and warning cannot be used together
         """
         graph = Graph()
-        graph.namespace_manager = get_graph().namespace_manager
+        graph.namespace_manager = self.graph.namespace_manager
 
         if only is not None:
             _only = []
diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 5dd4f92..c31e774 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -887,21 +887,25 @@ class Citation(BaseCitation):
         """
         return self.refsDecl is not None
 
-    def __export__(self, output=None, **kwargs):
+    def __export__(self, output=None, graph=None, **kwargs):
         if output == Mimetypes.XML.CTS:
+            # The prefixes are those of the graph of the object exported with this citation
+            if graph is None:
+                graph = get_graph()
+
             if self.xpath is None and self.scope is None and self.refsDecl is None:
                 return ""
 
             child = ""
             if isinstance(self.child, Citation):
-                child = self.child.export(output=output)
+                child = self.child.export(output=output, graph=graph)
 
             label = ""
             if self.name is not None:
                 label = self.name
 
             return make_xml_node(
-                get_graph(), RDF_NAMESPACES.CTS.citation, attributes={
+                graph, RDF_NAMESPACES.CTS.citation, attributes={
                     "xpath": re.sub(Citation.escape, "'", self.xpath),
                     "scope": re.sub(Citation.escape, "'", self.scope),
                     "label": label
diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 3a91eca..81a44d2 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -319,7 +319,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
                         # XmlCtsCitation Mapping
                         innerXML=make_xml_node(
                             self.graph, RDF_NAMESPACES.CTS.term("citationMapping"), complete=True,
-                            innerXML=self.citation.export(Mimetypes.XML.CTS)
+                            innerXML=self.citation.export(Mimetypes.XML.CTS, graph=self.graph)
                         )
                     )
                 )
diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 06086e8..f9db574 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -441,7 +441,7 @@ class Collection(Exportable):
                 or output == Mimetypes.XML.RDF:
 
             # We create a temp graph
-            store = Subgraph(dict(get_graph().namespace_manager.namespaces()))
+            store = Subgraph(dict(self.graph.namespace_manager.namespaces()))
             store.graphiter(self.graph, self.asNode(), ascendants=1, descendants=-1)
 
             o = store.serialize(format=RDFLIB_MAPPING[output], auto_compact=True, indent="")
-- 
2.43.0


From 3b5bcf0d3e0a09d32df6fa65712ba24c52a13d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:26 +0000
Subject: [PATCH 58/65] fix: CapiTainS exports used an undeclared prefix when
 the graph has another one for that namespace

---
 MyCapytain/resources/prototypes/metadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index f9db574..dc6f1f6 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -287,7 +287,10 @@ class Collection(Exportable):
         nm = self.graph.namespace_manager
         bindings = {}
         # The elements of the export are in the CTS namespace, whether or not there are properties which are
-        for predicate in set(self.graph.predicates()) | {RDF_NAMESPACES.CTS.term("urn")}:
+        predicates = set(self.graph.predicates()) | {RDF_NAMESPACES.CTS.term("urn")}
+        if cpt is True:
+            predicates.add(RDF_NAMESPACES.CAPITAINS.term("structured-metadata"))
+        for predicate in predicates:
             try:
                 prefix, namespace, name = nm.compute_qname(predicate)
             except ValueError:
@@ -297,8 +300,6 @@ class Collection(Exportable):
                 bindings["xmlns:" + prefix] = str(URIRef(namespace))#[:-1]
             else:
                 bindings["xmlns"] = str(URIRef(namespace))#[:-1]
-        if cpt is True:
-            bindings["xmlns:cpt"] = str(RDF_NAMESPACES.CAPITAINS)
 
         # Small hard coded fix for namespace that were not thought for RDF
         for k, v in bindings.items():
-- 
2.43.0


From 56998769f65316949098c75b27e886ceac263a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:05 +0000
Subject: [PATCH 59/65] fix: opening a passage wrote an attribute into the
 document of its text

---
 MyCapytain/common/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 742134e..59b66e6 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -180,7 +180,8 @@ def copyNode(node, children=False, parent=False):
     else:
         element = Element(
             node.tag,
-            attrib=node.attrib,
+            # objectify adds its type annotation to the mapping it is given, which must not be that of the node
+            attrib=dict(node.attrib),
             nsmap={None: "http://www.tei-c.org/ns/1.0"}
         )
     if children:
-- 
2.43.0


From 60d7ff5dcc980574cdabd2a372ac9a693652fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:20 +0000
Subject: [PATCH 60/65] fix: the page of a link was not read where it is the
 first parameter, and other links raised

---
 MyCapytain/common/utils/_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index b8bebd4..92807f9 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -16,7 +16,7 @@ def parse_pagination(headers):
     :rtype: _Navigation
     """
     links = {
-        link.rel: parse_qs(link.href).get("page", None)
+        link.rel: parse_qs(urlparse(link.href).query).get("page", [None])
         for link in link_header.parse(headers.get("Link", "")).links
     }
     return _Navigation(
-- 
2.43.0


From d26d736acb8acaa0ff835b4e32f3686eedef9408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:12 +0000
Subject: [PATCH 61/65] fix: a prefix was expanded wherever it occurs in a
 datatype, not only at its beginning

---
 MyCapytain/common/utils/_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_graph.py b/MyCapytain/common/utils/_graph.py
index 592a337..c9c90ba 100644
--- a/MyCapytain/common/utils/_graph.py
+++ b/MyCapytain/common/utils/_graph.py
@@ -79,5 +79,5 @@ def expand_namespace(nsmap, string):
     """
     for ns in nsmap:
         if isinstance(string, str) and isinstance(ns, str) and string.startswith(ns+":"):
-            return string.replace(ns+":", nsmap[ns])
+            return string.replace(ns+":", nsmap[ns], 1)
     return string
\ No newline at end of file
-- 
2.43.0


From 5be411e928681cdfd86280c58bab9c5a7c6495e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:46 +0000
Subject: [PATCH 62/65] fix: the word of a reference was cut at its first
 apostrophe or dot, and its index lost

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index c31e774..d497fea 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -10,7 +10,7 @@ from ._base import BaseCitation, BaseReference, BaseReferenceSet
 
 REFSDECL_SPLITTER = re.compile(r"/+[*()|\sa-zA-Z0-9:\[\]@=\\{$'\".\s]+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
-SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
+SUBREFERENCE = re.compile(r"([^\[\]]*)(?:\[([0-9]+)\])?", re.UNICODE)
 REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)([\\$'\"?0-9]{3,6})")
 
 
-- 
2.43.0


From 7683195a58a4839b91bf912d631c12e2a6484ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:46 +0000
Subject: [PATCH 63/65] fix: dots in the word of a reference were counted as
 levels

---
 MyCapytain/common/reference/_capitains_cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index d497fea..6ff6e81 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -108,11 +108,11 @@ class CtsSinglePassageId(str):
         yield from subref.split(".")
 
     def __len__(self) -> int:
-        return self.count(".") + 1
+        return len(self.list)
 
     @property
     def depth(self) -> int:
-        return self.count(".") + 1
+        return len(self.list)
 
 
 class CtsReference(BaseReference):
-- 
2.43.0


From d90899c407a4d831dc97c94279ce8205b31cdb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:38 +0000
Subject: [PATCH 64/65] fix: empty names were read as 'None', and those with a
 comment were cut

---
 MyCapytain/common/utils/xml.py           | 11 +++++++++++
 MyCapytain/resources/collections/cts.py  | 12 ++++++------
 MyCapytain/resources/texts/remote/cts.py | 18 +++++++++---------
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 59b66e6..bd776e3 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -14,6 +14,7 @@ from MyCapytain.common.constants import XPATH_NAMESPACES
 __all__ = [
     "make_xml_node",
     "xmlparser",
+    "text_content",
     "normalizeXpath",
     "xmliter",
     "performXpath",
@@ -110,6 +111,16 @@ def xmlparser(xml, objectify=True):
     return parsed
 
 
+def text_content(node):
+    """ Text of an element, whether or not it has comments, "" if it is empty
+
+    :param node: XML Node
+    :type node: lxml.etree._Element
+    :rtype: str
+    """
+    return str(node.xpath("string()"))
+
+
 def __formatXpath__(xpath):
     """ Format at XPath for perform XPath
 
diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 97f210b..f5cbdd3 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -16,7 +16,7 @@ from lxml.objectify import BoolElement, IntElement, FloatElement
 from MyCapytain.resources.prototypes.cts import inventory as cts
 from MyCapytain.common.reference._capitains_cts import Citation as CitationPrototype
 from MyCapytain.common.utils import expand_namespace
-from MyCapytain.common.utils.xml import xmlparser
+from MyCapytain.common.utils.xml import text_content, xmlparser
 from MyCapytain.common.constants import XPATH_NAMESPACES, Mimetypes, RDF_NAMESPACES
 
 
@@ -112,7 +112,7 @@ def _parse_structured_metadata(obj, xml):
             ns, tag = tuple(tag.split("}"))
             tag = URIRef(ns[1:]+tag)
             # str() of an objectified element is its Python value: "007" would become "7" and "true" "True"
-            s_m = metadata.text or ""
+            s_m = text_content(metadata)
             if s_m.startswith("urn:") or s_m.startswith("http:") or s_m.startswith("https:") or s_m.startswith("hdl:"):
                 obj.metadata.add(
                     tag,
@@ -166,12 +166,12 @@ class XmlCtsTextMetadata(cts.CtsTextMetadata):
         for child in xml.xpath("ti:description", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("description", child.text, lg)
+                obj.set_cts_property("description", text_content(child), lg)
 
         for child in xml.xpath("ti:label", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("label", child.text, lg)
+                obj.set_cts_property("label", text_content(child), lg)
 
         obj.citation = cls.CLASS_CITATION.ingest(xml, obj.citation, "ti:online/ti:citationMapping/ti:citation")
 
@@ -275,7 +275,7 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
         for child in xml.xpath("ti:title", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("title", child.text, lg)
+                o.set_cts_property("title", text_content(child), lg)
 
         # Parse children
         children = []
@@ -321,7 +321,7 @@ class XmlCtsTextgroupMetadata(cts.CtsTextgroupMetadata):
         for child in xml.xpath("ti:groupname", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("groupname", child.text, lg)
+                o.set_cts_property("groupname", text_content(child), lg)
 
         # Parse Works
         _xpathDict(xml=xml, xpath='ti:work', cls=cls.CLASS_WORK, parent=o)
diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index ac7f622..61c1df9 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -11,7 +11,7 @@
 from __future__ import unicode_literals
 
 from MyCapytain.common.metadata import Metadata
-from MyCapytain.common.utils.xml import xmlparser
+from MyCapytain.common.utils.xml import text_content, xmlparser
 from MyCapytain.common.constants import XPATH_NAMESPACES, Mimetypes, RDF_NAMESPACES
 from MyCapytain.common.reference import CtsReference, URN
 from MyCapytain.resources.collections import cts as CtsCollection
@@ -160,23 +160,23 @@ class _SharedMethod(InteractiveTextualNode):
         """
         for node in xml.xpath(".//ti:groupname", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text)
-            self.set_creator(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=text_content(node))
+            self.set_creator(text_content(node), lang)
 
         for node in xml.xpath(".//ti:title", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text)
-            self.set_title(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=text_content(node))
+            self.set_title(text_content(node), lang)
 
         for node in xml.xpath(".//ti:label", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text)
-            self.set_subject(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=text_content(node))
+            self.set_subject(text_content(node), lang)
 
         for node in xml.xpath(".//ti:description", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text)
-            self.set_description(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=text_content(node))
+            self.set_description(text_content(node), lang)
 
         # Need to code that p
         if not self.citation.is_set() and xml.xpath("//ti:citation", namespaces=XPATH_NAMESPACES):
-- 
2.43.0


From 2b48150e24e5276e74b28a1a5ff47e546fd3273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:33 +0000
Subject: [PATCH 65/65] fix: CTS properties in a language were looked for with
 the case of its tag

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 81a44d2..ca5f215 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -11,6 +11,7 @@ from six import text_type
 
 from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
 from MyCapytain.common.reference._capitains_cts import URN
+from MyCapytain.common.utils import is_in_lang
 from MyCapytain.common.utils.xml import make_xml_node, xmlparser
 from MyCapytain.common.constants import RDF_NAMESPACES, Mimetypes
 from MyCapytain.errors import InvalidURN
@@ -80,6 +81,9 @@ class PrototypeCtsCollection(Collection):
         if lang is not None:
             if lang in x:
                 return x[lang]
+            for obj in x.values():
+                if is_in_lang(obj, lang):
+                    return obj
             return next(iter(x.values()), None)
         return x
 
-- 
2.43.0

