From 31c9f8782d01668458ec98fad8848627963ae065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 01/68] fix: check every node before Element.append/prepend
 changes the tree

A refused node made prepend() lose the element's text and append() keep
the nodes that preceded it.
---
 svgpy/dom.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c00e78e..29faeb0 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1599,13 +1599,15 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
         data = ''
         target = self
         for node in nodes:
             if isinstance(node, str):
                 data += node
                 continue
-            self.ensure_pre_insertion_validity(node)
             if len(data) > 0:
                 tail = False if target == self else True
                 node_append_data(target, data, tail)
@@ -2198,6 +2200,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
         first_child = self.first_child
         data = ''
         target = self
@@ -2208,7 +2213,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             if isinstance(node, str):
                 data += node
                 continue
-            self.ensure_pre_insertion_validity(node)
             if len(data) > 0:
                 tail = False if target == self else True
                 node_prepend_data(target, data, tail)
-- 
2.43.0


From d347e51489b89767db697cc5818c118c95b8f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 02/68] fix: Element.extend accepts one-shot iterables and
 checks them first

The argument was iterated twice, so nothing was inserted from a generator;
a refused node left the preceding ones attached to the document.
---
 svgpy/dom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 29faeb0..fd39d65 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1734,9 +1734,11 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
         Extends the current children by the nodes in the iterable.
         """
-        owner_document = self.owner_document
+        nodes = list(nodes)
         for node in nodes:
             self.ensure_pre_insertion_validity(node)
+        owner_document = self.owner_document
+        for node in nodes:
             node.attach_document(owner_document)
         super().extend(nodes)
 
-- 
2.43.0


From b4a983dd3cca26c6d0ae503e31b508270a1242f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 03/68] fix: Document.insert at the end of the children

---
 svgpy/window.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 2354e84..f60f67c 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -511,6 +511,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
             index (int): An index position of the child nodes.
             node (Node): A node to be inserted.
         """
+        self.ensure_pre_insertion_validity(node)
         root = self._document_element
         if root is None:
             self.append(node)
@@ -518,7 +519,10 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
             pass  # do nothing
         else:
             children = self.child_nodes
-            children[index].addprevious(node)
+            if index >= len(children):
+                children[-1].addnext(node)
+            else:
+                children[index].addprevious(node)
 
     def insert_before(self, node, child):
         """Inserts a node into a parent before a child.
-- 
2.43.0


From 18a326b90499eeeee21d7f59b6bffc8d01c3bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 04/68] fix: check every node before
 Document.append/prepend/extend inserts any

---
 svgpy/window.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index f60f67c..a959218 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -249,6 +249,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
                     "'{}'".format('#text',
                                   self.__class__.__name__))
             self.ensure_pre_insertion_validity(node)
+        for node in nodes:
             if root is None:
                 if not isinstance(node, Element):
                     raise HierarchyRequestError(
@@ -419,11 +420,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
     def extend(self, nodes):
         """Extends the current children by the nodes in the iterable.
         """
-        if isinstance(nodes, (list, tuple)):
-            self.append(*nodes)
-            return
-        for node in nodes:
-            self.append(node)
+        self.append(*nodes)
 
     def get_element_by_id(self, element_id, nsmap=None):
         """Finds the first matching sub-element, by id.
@@ -584,6 +581,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
                     "'{}'".format('#text',
                                   self.__class__.__name__))
             self.ensure_pre_insertion_validity(node)
+        for node in nodes:
             if root is None:
                 self.append(node)
                 root = node
-- 
2.43.0


From e52dde59c6292a26815f236ca5551f5d9f823b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 05/68] fix: DOMTokenList item assignment leaves the caller's
 list alone

---
 svgpy/dom.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index fd39d65..daca701 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -207,9 +207,7 @@ class DOMTokenList(MutableSequence):
             if value in self._tokens:
                 return
         elif isinstance(value, list):
-            for token in list(value):
-                if token in self._tokens:
-                    value.remove(token)
+            value = [token for token in value if token not in self._tokens]
             if len(value) == 0:
                 return
         else:
-- 
2.43.0


From 4187404de93eb8ac28de6de1a654ec86fc954901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 06/68] fix: relative URL resolution leaves the base URL object
 alone

---
 svgpy/url.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index e4443bc..c678856 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 
+import copy
 import os
 import re
 import sys
@@ -234,7 +235,7 @@ class URL(object):
             else:
                 parsed_base = URL(base)
         elif isinstance(base, URL):
-            parsed_base = base
+            parsed_base = copy.deepcopy(base)
         else:
             raise TypeError('Expected str or URL, got ' + repr(type(base)))
         if (parsed_base is not None
-- 
2.43.0


From 52c525b3d21df1ce44489dc54820566885d0a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 07/68] fix: get_elements_by_class_name leaves the caller's
 nsmap alone

---
 svgpy/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index a568c28..afd8f80 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -108,8 +108,7 @@ def get_elements_by_class_name(element, class_names, nsmap=None,
         axis = 'descendant'
     patterns = [r're:test(@class, "(^| ){}($| )")'.format(x) for x in names]
     expr = '{}::*[{}]'.format(axis, ' and '.join(patterns))
-    if nsmap is None:
-        nsmap = dict()
+    nsmap = dict(nsmap) if nsmap is not None else dict()
     nsmap['re'] = 'http://exslt.org/regular-expressions'
     return element.xpath(expr, namespaces=nsmap)
 
-- 
2.43.0


From f439ea6cd970a21d5eb0426bbf38a9b74353ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 08/68] fix: SVGParser.create_element_ns leaves the caller's
 nsmap alone

---
 svgpy/element.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index ddc2e7a..db291fd 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1328,8 +1328,7 @@ class SVGParser(object):
             >>> e.tag, e.node_name, e.tag_name, e.local_name
             ('{http://www.w3.org/1999/xhtml}source', 'html:source', 'html:source', 'source')
         """
-        if nsmap is None:
-            nsmap = dict()
+        nsmap = dict(nsmap) if nsmap is not None else dict()
         if None not in nsmap:
             nsmap[None] = Element.SVG_NAMESPACE_URI
         qname = QualifiedName(namespace, qualified_name)
-- 
2.43.0


From 6b758c12eb0821d1c3f15d82373ee6e0ebace513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 09/68] fix: URL.host is derived from the hostname, port and
 protocol

---
 svgpy/url.py | 46 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index c678856..22d0959 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -222,7 +222,6 @@ class URL(object):
         self._username = ''
         self._password = ''
         self._hostname = ''
-        self._host = ''
         self._port = ''
         self._pathname = ''
         self._search_params = URLSearchParams()
@@ -279,7 +278,7 @@ class URL(object):
                      'protocol': self._protocol,
                      'username': self._username,
                      'password': self._password,
-                     'host': self._host,
+                     'host': self.host,
                      'hostname': self._hostname,
                      'port': self._port,
                      'pathname': self._pathname,
@@ -305,11 +304,14 @@ class URL(object):
         """str: The URL's host and port (if different from the default port
         for the scheme).
         """
-        port = self.port
-        if len(port) > 0:
-            if _SPECIAL_SCHEMES_PORT_NUMBERS.get(self.protocol, '') == port:
-                self._host = self._hostname
-        return self._host
+        host = self._hostname
+        port = self._port
+        if (len(host) > 0
+                and len(port) > 0
+                and _SPECIAL_SCHEMES_PORT_NUMBERS.get(
+                    self._protocol, '') != port):
+            host += ':' + port
+        return host
 
     @host.setter
     def host(self, host):
@@ -408,17 +410,10 @@ class URL(object):
     def port(self, port):
         if len(port) == 0:
             self._port = ''
-            self._host = self._hostname
             return
         elif not port.isdigit() or int(port) > 2 ** 16 - 1:
             raise ValueError('Invalid port: ' + repr(port))
         self._port = port
-        self._host = self._hostname
-        if (len(port) > 0
-                and len(self._host) > 0
-                and _SPECIAL_SCHEMES_PORT_NUMBERS.get(
-                    self._protocol, '') != port):
-            self._host += ':' + port
 
     @property
     def protocol(self):
@@ -491,7 +486,7 @@ class URL(object):
 
     def _parse_host(self, host, hostname_state=False):
         if len(host) == 0:
-            self._host = self._hostname = ''
+            self._hostname = ''
             if not hostname_state:
                 self._port = ''
             return
@@ -507,33 +502,30 @@ class URL(object):
                 if ']' not in host:
                     raise ValueError('Invalid hostname: ' + repr(host))
                 end = host.rfind(']') + 1
-                self._host = self._hostname = host[:end]
+                self._hostname = host[:end]
             else:
                 # IPv6 address
                 end = -1
-                self._host = self._hostname = '[{}]'.format(host)
+                self._hostname = '[{}]'.format(host)
         elif colons == 1:
             # ascii-domain with port or IPv4 address with port
             end = host.rfind(':')
-            self._host = self._hostname = host[:end]
+            self._hostname = host[:end]
         else:
             # ascii-domain or IPv4 address
             end = -1
-            self._host = self._hostname = host
+            self._hostname = host
         if not hostname_state:
             # host state
             if end < 0:
                 self._port = ''
             else:
                 self.port = host[end + 1:]
-        else:
+        elif end >= 0:
             # hostname state
-            if end < 0:
-                self.port = self._port
-            else:
-                port = host[end + 1:]
-                if len(port) > 0:
-                    self.port = port
+            port = host[end + 1:]
+            if len(port) > 0:
+                self.port = port
 
     def _parse_url(self, url):
         pr = urlsplit(url)
@@ -543,7 +535,7 @@ class URL(object):
             raise ValueError('Invalid URL: ' + repr(url))
         self.protocol = pr.scheme
         if len(pr.netloc) == 0:
-            self._host = self._hostname = self._port = ''
+            self._hostname = self._port = ''
         else:
             self._port = str(pr.port) if pr.port is not None else ''
             self.hostname = pr.hostname
-- 
2.43.0


From 8a60a5e8e47455e0740293e3b00fc1dba01ea6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 10/68] fix: refused URL.host, hostname and href values leave
 the URL unchanged

---
 svgpy/url.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 22d0959..eddb6ad 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -333,7 +333,16 @@ class URL(object):
 
     @href.setter
     def href(self, url):
-        self._parse_url(url)
+        parsed = URL(url)
+        self._protocol = parsed._protocol
+        self._username = parsed._username
+        self._password = parsed._password
+        self._hostname = parsed._hostname
+        self._port = parsed._port
+        self._pathname = parsed._pathname
+        self._search_params.clear()
+        self._search_params.update(parsed._search_params)
+        self._hash = parsed._hash
 
     @property
     def origin(self):
@@ -502,19 +511,19 @@ class URL(object):
                 if ']' not in host:
                     raise ValueError('Invalid hostname: ' + repr(host))
                 end = host.rfind(']') + 1
-                self._hostname = host[:end]
+                hostname = host[:end]
             else:
                 # IPv6 address
                 end = -1
-                self._hostname = '[{}]'.format(host)
+                hostname = '[{}]'.format(host)
         elif colons == 1:
             # ascii-domain with port or IPv4 address with port
             end = host.rfind(':')
-            self._hostname = host[:end]
+            hostname = host[:end]
         else:
             # ascii-domain or IPv4 address
             end = -1
-            self._hostname = host
+            hostname = host
         if not hostname_state:
             # host state
             if end < 0:
@@ -526,6 +535,7 @@ class URL(object):
             port = host[end + 1:]
             if len(port) > 0:
                 self.port = port
+        self._hostname = hostname
 
     def _parse_url(self, url):
         pr = urlsplit(url)
-- 
2.43.0


From 0123c7ca92628400ee4b5ae596f7531a695f84f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 11/68] fix: CSSMathInvert leaves the type of its operand alone

---
 svgpy/css/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 1909543..70c79e9 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1263,7 +1263,7 @@ class CSSMathInvert(CSSMathValue):
         super().__init__()
         values = CSSNumericValue.rectify_values([arg])
         self._value = values[0]
-        self._type = self._value.type()
+        self._type = self._value.type().copy()
         for key in list(self._type):
             self._type[key] *= -1
 
-- 
2.43.0


From 3b80a307a0afb697c57186a8f4eea7aa0d08f042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 12/68] fix: CSSUnparsedValue.tostring does not write to stdout

---
 svgpy/css/types.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 70c79e9..91d4664 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1811,7 +1811,6 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
         for token in self._tokens:
             if isinstance(token, CSSVariableReferenceValue):
                 token = token.tostring(**kwargs)
-            print(repr(token))
             s.append(token)
         return ''.join(s)
 
-- 
2.43.0


From 6fc7e6e4482671ef7d19a98d287ade31d97808bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 13/68] fix: DOMRect.transform_self bounds all four corners,
 also for 3-D matrices

---
 svgpy/geometry/rect.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 4caf1a3..3688e76 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -532,15 +532,15 @@ class DOMRect(DOMRectReadOnly):
         y2 = y1
         x4 = x1
         y4 = y3
-        x1, y1 = matrix.transform_point(x1, y1)
-        x2, y2 = matrix.transform_point(x2, y2)
-        x3, y3 = matrix.transform_point(x3, y3)
-        x4, y4 = matrix.transform_point(x4, y4)
-        x1 = min(x1, x2, x3, x4)
-        y1 = min(y1, y2, y3, y4)
-        x3 = max(x1, x2, x3, x4)
-        y3 = max(y1, y2, y3, y4)
-        self.set_coords(x1, y1, x3, y3)
+        x1, y1 = matrix.transform_point(x1, y1)[:2]
+        x2, y2 = matrix.transform_point(x2, y2)[:2]
+        x3, y3 = matrix.transform_point(x3, y3)[:2]
+        x4, y4 = matrix.transform_point(x4, y4)[:2]
+        left = min(x1, x2, x3, x4)
+        top = min(y1, y2, y3, y4)
+        right = max(x1, x2, x3, x4)
+        bottom = max(y1, y2, y3, y4)
+        self.set_coords(left, top, right, bottom)
         return self
 
     def translate_self(self, dx, dy):
-- 
2.43.0


From 0297d62b78d31dac79512e0db6423de14a0197a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 14/68] fix: PathParser.normalize accepts arcs whose end points
 are identical

---
 svgpy/path.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 8bccd28..52c86e9 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1443,7 +1443,7 @@ class PathParser(object):
                     x1, y1 = PathSegment.get_next_control_point(
                         path_segment, cpx, cpy, bearing, last_command,
                         x1=x1, y1=y1)
-                else:
+                elif len(normalized) > 0:
                     x1, y1 = normalized[-1].end
 
                 if command in 'Zz':
@@ -1451,7 +1451,10 @@ class PathParser(object):
                         cpx = start_x
                         cpy = start_y
                 else:
-                    cpx, cpy = normalized[-1].end
+                    # an elliptical arc whose end points are identical is
+                    # omitted
+                    if len(normalized) > 0:
+                        cpx, cpy = normalized[-1].end
                     if ((command in 'Mm'
                          and (last_command is None
                               or last_command not in 'Mm'))
-- 
2.43.0


From adc5800a2c8b5d7fabd5d90a3399da5d47ccdcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 15/68] fix: PathParser.transform keeps the current point after
 H and V commands

---
 svgpy/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 52c86e9..c27c5ce 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1551,7 +1551,12 @@ class PathParser(object):
                                                               bearing)
                 else:
                     abs_path_segment = path_segment
-                cpx, cpy = abs_path_segment.end
+                x, y = abs_path_segment.end
+                # 'H' and 'V' commands leave the other coordinate as it is
+                if x is not None:
+                    cpx = x
+                if y is not None:
+                    cpy = y
                 if ((command in 'Mm'
                      and (last_command is None or last_command not in 'Mm'))
                         or (start_x is None or start_y is None)):
-- 
2.43.0


From 1457620d3c57f299bfb346d1b6bc3f1ae9accae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 16/68] fix: smooth curves reflect the control point of a curve
 of the same kind only

---
 svgpy/path.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index c27c5ce..f21afbf 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -821,6 +821,25 @@ class PathSegment(object):
             return math.hypot(x - cpx, y - cpy), (x, y)
         raise NotImplementedError('Unsupported path type: ' + repr(path_type))
 
+    @staticmethod
+    def continues_curve(path_type, last_path_type):
+        """Returns True if the control point at the beginning of a smooth
+        curve is the reflection of the last control point of the previous
+        command; otherwise it is the current point.
+
+        Arguments:
+            path_type (str): The type of the path segment.
+            last_path_type (str): The type of the previous path segment or
+                None.
+        Returns:
+            bool: True if the previous command is a curve of the same kind.
+        """
+        if last_path_type is None:
+            return False
+        elif path_type in 'Ss':
+            return last_path_type in 'CcSs'
+        return path_type in 'Tt' and last_path_type in 'QqTt'
+
     @staticmethod
     def get_next_control_point(path_segment, cpx, cpy, bearing, last_path_type,
                                **extra):
@@ -840,12 +859,8 @@ class PathSegment(object):
             # smooth cubic bezier curveto: 'S'|'s' (x2,y2 x,y)+
             if path_type == 'C':
                 _, _, x2, y2, x, y = abs_path_segment.values
-            elif (path_type == 'S'
-                  and last_path_type is not None and last_path_type in 'CcSs'):
-                x2, y2, x, y = abs_path_segment.values
             else:
-                x2, y2 = cpx, cpy
-                x, y = abs_path_segment.end
+                x2, y2, x, y = abs_path_segment.values
             next_x1 = 2 * x - x2
             next_y1 = 2 * y - y2
             return next_x1, next_y1
@@ -1354,6 +1369,8 @@ class PathParser(object):
                 # quadratic bezier curveto: 'Q'|'q' (x1,y1 x,y)+
                 # vertical lineto: 'V'|'v' y+
                 old_cpx, old_cpy = cpx, cpy
+                if not PathSegment.continues_curve(command, last_command):
+                    x1, y1 = cpx, cpy
                 length, (cpx, cpy) = PathSegment.get_length(path_segment,
                                                             cpx, cpy, bearing,
                                                             x1=x1, y1=y1)
@@ -1433,6 +1450,8 @@ class PathParser(object):
                 # smooth quadratic bezier curveto: 'T'|'t' (x,y)+
                 # vertical lineto: 'V'|'v' y+
                 # pathclose: 'Z'|'z'
+                if not PathSegment.continues_curve(command, last_command):
+                    x1, y1 = cpx, cpy
                 normalized = PathSegment.normalize(path_segment,
                                                    cpx, cpy, bearing,
                                                    x1=x1, y1=y1)
-- 
2.43.0


From 81a93db2711933040b588d04d702ba8e81053059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 17/68] fix: auto radius of an ellipse is the used value of the
 other radius

---
 svgpy/element.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index db291fd..8288f4a 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -289,21 +289,20 @@ class SVGEllipseElement(SVGGeometryElement):
         # Percentages: refer to the size of the current SVG viewport
         _ry = self.get('ry', 'auto')
 
-        if _rx != 'auto' and _ry == 'auto':
-            _ry = _rx
-        elif _rx == 'auto' and _ry != 'auto':
-            _rx = _ry
-
-        if _rx == 'auto' and _ry == 'auto':
-            rx = 0
-            ry = 0
-        else:
+        rx = 0
+        ry = 0
+        if _rx != 'auto':
             rx = SVGLength(_rx,
                            context=self,
                            direction=SVGLength.DIRECTION_HORIZONTAL).value()
+        if _ry != 'auto':
             ry = SVGLength(_ry,
                            context=self,
                            direction=SVGLength.DIRECTION_VERTICAL).value()
+        if _rx == 'auto':
+            rx = ry
+        elif _ry == 'auto':
+            ry = rx
         geometry['rx'] = rx
         geometry['ry'] = ry
 
-- 
2.43.0


From b43f3989ee1cf8191aa6288929f4278eec9a715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 18/68] fix: DOMRect.unite takes rectangles without width or
 height into account

The union ignored the far corner of a rectangle whose width or height is 0,
so the bounding box of M0,0 L10,0 was a point.
---
 svgpy/geometry/rect.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 3688e76..fb8c83b 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -580,32 +580,20 @@ class DOMRect(DOMRectReadOnly):
         """
         if x is None or y is None:
             return self
-        elif self.contains(x, y, width, height):
+        right = x + width if width > 0 else x
+        bottom = y + height if height > 0 else y
+        if self.contains(x, y) and self.contains(right, bottom):
             return self
 
         x1, y1, x2, y2 = self.get_coords()
 
         if x1 is None or x < x1:
             x1 = x
-        elif x > x2:
-            x2 = x
-
         if y1 is None or y < y1:
             y1 = y
-        elif y > y2:
-            y2 = y
-
-        if width > 0 and height > 0:
-            right = x + width
-            bottom = y + height
-            if x2 is None or right > x2:
-                x2 = right
-            if y2 is None or bottom > y2:
-                y2 = bottom
-
-        if x2 is not None and y2 is not None:
-            self.set_coords(x1, y1, x2, y2)
-        else:
-            self._x = x1
-            self._y = y1
+        if x2 is None or right > x2:
+            x2 = right
+        if y2 is None or bottom > y2:
+            y2 = bottom
+        self.set_coords(x1, y1, x2, y2)
         return self
-- 
2.43.0


From e81acec179be3c00fb268def281a7d52bed0f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 19/68] fix: arithmetic on lengths keeps the element they refer
 to

---
 svgpy/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svgpy/core.py b/svgpy/core.py
index 3adf08b..5594f19 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1064,6 +1064,11 @@ class SVGLength(object):
         x._number += Decimal(other.value(x._unit))
         return x
 
+    def __deepcopy__(self, memo):
+        # the copy refers to the same element: a copied element would have
+        # neither ancestors nor a document
+        return copy.copy(self)
+
     def __eq__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-- 
2.43.0


From 7cc8667ee5ad530a377f0a94a4d3dfebf5d23dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 20/68] fix: SVGLength.isrelative knows the cap unit

---
 svgpy/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 5594f19..a914a4c 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1250,7 +1250,8 @@ class SVGLength(object):
 
     def isrelative(self):
         return self._unit in [
-            SVGLength.TYPE_EMS, SVGLength.TYPE_EXS, SVGLength.TYPE_CHS,
+            SVGLength.TYPE_EMS, SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
+            SVGLength.TYPE_CHS,
             SVGLength.TYPE_ICS, SVGLength.TYPE_REMS,
             SVGLength.TYPE_PERCENTAGE,
             SVGLength.TYPE_VW, SVGLength.TYPE_VH,
-- 
2.43.0


From 84ce023f6b586751a0516ccb556fd469c31dcbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 21/68] fix: preserveAspectRatio accepts xMinYMid as SVG spells
 it

---
 svgpy/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/base.py b/svgpy/base.py
index 4f7bec8..093f779 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -703,6 +703,7 @@ class SVGPreserveAspectRatio(object):
     }
 
     _ALIGN_TYPE_MAP = dict((v, k) for k, v in _TYPE_ALIGN_MAP.items())
+    _ALIGN_TYPE_MAP['xMinYMid'] = SVG_PRESERVEASPECTRATIO_XMINYMID
 
     _TYPE_MEETORSLICE_MAP = {
         SVG_MEETORSLICE_MEET: MEETORSLICE_MEET,
-- 
2.43.0


From b6ca2dbb28cb6e978a6d8b80ffe37ffa0e5165ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 22/68] fix: viewport transformation of lengths in different
 units

---
 svgpy/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 093f779..1f3e9c4 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -520,6 +520,9 @@ class SVGGraphicsElement(SVGElement):
         if ew is None or eh is None:
             return ctm
         vbx, vby, vbw, vbh, par = view_box
+        # the units of the lengths may differ, and ratios have none
+        ex, ey, ew, eh, vbx, vby, vbw, vbh = [
+            length.value() for length in (ex, ey, ew, eh, vbx, vby, vbw, vbh)]
         align = par.align
         if align == SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_UNKNOWN:
             align = SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_XMIDYMID
@@ -561,8 +564,8 @@ class SVGGraphicsElement(SVGElement):
                      SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_XMAXYMAX):
             # 'YMax'
             ty += eh - vbh * sy
-        ctm.translate_self(tx.value(), ty.value())
-        ctm.scale_self(sx.value(tx.unit), sy.value(tx.unit))
+        ctm.translate_self(tx, ty)
+        ctm.scale_self(sx, sy)
         return ctm
 
 
-- 
2.43.0


From 796fcad90f7eb7d59f62c48fcc440e0a182ad80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 23/68] fix: relative viewport sizes refer to the parent
 viewport and keep their number

---
 svgpy/base.py | 116 ++++++++++++++++++--------------------------------
 1 file changed, 41 insertions(+), 75 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 1f3e9c4..13a2622 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -257,84 +257,50 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         else:
             initial_viewport_width = win.inner_width
             initial_viewport_height = win.inner_height
-        parent_vpw = vpw = SVGLength(initial_viewport_width,
-                                     direction=SVGLength.DIRECTION_HORIZONTAL)
-        parent_vph = vph = SVGLength(initial_viewport_height,
-                                     direction=SVGLength.DIRECTION_VERTICAL)
-        for root in roots:
-            _width = root.get('width', 'auto')
-            if _width == 'auto':
-                _width = '100%'
-            if _width == 'inherit':
-                vpw = parent_vpw
-            else:
-                vpw = SVGLength(_width,
-                                context=root,
-                                direction=SVGLength.DIRECTION_HORIZONTAL)
-                unit = vpw.unit
-                if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
-                elif unit == SVGLength.TYPE_VH:
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
-                elif unit == SVGLength.TYPE_VMAX:
-                    vpw = max(parent_vpw, parent_vph)
-                elif unit == SVGLength.TYPE_VMIN:
-                    vpw = min(parent_vpw, parent_vph)
-            parent_vpw = vpw
-
-            _height = root.get('height', 'auto')
-            if _height == 'auto':
-                _height = '100%'
-            if _height == 'inherit':
-                vph = parent_vph
-            else:
-                vph = SVGLength(_height,
-                                context=root,
-                                direction=SVGLength.DIRECTION_VERTICAL)
-                unit = vph.unit
-                if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
-                elif unit == SVGLength.TYPE_VW:
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
-                elif unit == SVGLength.TYPE_VMAX:
-                    vph = max(parent_vpw, parent_vph)
-                elif unit == SVGLength.TYPE_VMIN:
-                    vph = min(parent_vpw, parent_vph)
-            parent_vph = vph
-        if len(roots) == 0:
-            vpx = SVGLength(0)
-            vpy = SVGLength(0)
-        else:
-            root = roots[-1]
-            vpx = SVGLength(root.get('x', '0'),
-                            context=root,
-                            direction=SVGLength.DIRECTION_HORIZONTAL)
-            unit = vpx.unit
-            if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
-            elif unit == SVGLength.TYPE_VH:
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
-            elif unit == SVGLength.TYPE_VMAX:
-                vpx = max(vpw, vph)
-            elif unit == SVGLength.TYPE_VMIN:
-                vpx = min(vpw, vph)
-
-            vpy = SVGLength(root.get('y', '0'),
-                            context=root,
-                            direction=SVGLength.DIRECTION_VERTICAL)
-            unit = vpy.unit
-            if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
+        vpx = SVGLength(0)
+        vpy = SVGLength(0)
+        vpw = SVGLength(initial_viewport_width,
+                        direction=SVGLength.DIRECTION_HORIZONTAL)
+        vph = SVGLength(initial_viewport_height,
+                        direction=SVGLength.DIRECTION_VERTICAL)
+
+        def _resolve(root, name, default, direction, parent):
+            """Returns a length that is relative to the parent viewport."""
+            width, height = parent
+            size = (width if direction == SVGLength.DIRECTION_HORIZONTAL
+                    else height)
+            value = root.get(name, default)
+            if name in ('width', 'height'):
+                if value == 'auto':
+                    value = default
+                elif value == 'inherit':
+                    return size
+            length = SVGLength(value, context=root, direction=direction)
+            unit = length.unit
+            if unit == SVGLength.TYPE_PERCENTAGE:
+                base = size
             elif unit == SVGLength.TYPE_VW:
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
+                base = width
+            elif unit == SVGLength.TYPE_VH:
+                base = height
             elif unit == SVGLength.TYPE_VMAX:
-                vpy = max(vpw, vph)
+                base = max(width, height)
             elif unit == SVGLength.TYPE_VMIN:
-                vpy = min(vpw, vph)
+                base = min(width, height)
+            else:
+                return length
+            return length.value(unit) / 100 * base
+
+        for root in roots:
+            parent = vpw, vph
+            vpw = _resolve(root, 'width', '100%',
+                           SVGLength.DIRECTION_HORIZONTAL, parent)
+            vph = _resolve(root, 'height', '100%',
+                           SVGLength.DIRECTION_VERTICAL, parent)
+            vpx = _resolve(root, 'x', '0',
+                           SVGLength.DIRECTION_HORIZONTAL, parent)
+            vpy = _resolve(root, 'y', '0',
+                           SVGLength.DIRECTION_VERTICAL, parent)
 
         # TODO: check a range: max-width, max-height, min-width and min-height.
         return vpx, vpy, vpw, vph
-- 
2.43.0


From 047ca0efe4741c3c4c5414fb1532b20a40addde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 24/68] fix: viewport transformation of a nested viewport with
 relative size

---
 svgpy/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 13a2622..130b66c 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -477,7 +477,7 @@ class SVGGraphicsElement(SVGElement):
             DOMMatrix: The transformation matrix.
         """
         ctm = DOMMatrix()
-        ex, ey, ew, eh = self.get_viewport_size(recursive)
+        ex, ey, ew, eh = self.get_viewport_size()
         view_box = self.get_view_box(recursive)
         if view_box is None:
             if ex is not None and ey is not None:
-- 
2.43.0


From 7178baa413832d86148c9c29c0dc445857dd1cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 25/68] fix: DOMRect.transform_self maps rectangles without
 width or height

The box of a line stayed where it was when its group had a transform.
---
 svgpy/geometry/rect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index fb8c83b..ef80740 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -524,7 +524,7 @@ class DOMRect(DOMRectReadOnly):
         Returns:
             DOMRect: Returns itself.
         """
-        if not self.isvalid():
+        if self._x is None or self._y is None:
             return self
         # clockwise
         x1, y1, x3, y3 = self.get_coords()
-- 
2.43.0


From 3e442312b0f78d1dcdfe137615d2ef78a67cc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 26/68] fix: the CTM takes transforms of elements between two
 viewports into account

Only the transforms below the nearest viewport were applied, and the transform
of a viewport element was applied inside its view box.
---
 svgpy/base.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 130b66c..9432cee 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -360,23 +360,23 @@ class SVGGraphicsElement(SVGElement):
             scale = farthest.current_scale
             tx, ty = farthest.current_translate
             ctm *= DOMMatrix([scale, 0, 0, scale, tx, ty])
-        for root in roots:
-            vtm = root.get_viewport_transformation_matrix(recursive=False)
-            ctm *= vtm
 
-        transform_list = SVGTransformList()
+        # the transforms of elements between two viewports count as well
+        matrix = DOMMatrix()
         element = self
         while element is not None:
+            if element in roots:
+                vtm = element.get_viewport_transformation_matrix(
+                    recursive=False)
+                matrix = vtm * matrix
             if element.istransformable():
-                transform = element.transform
-                if transform is not None:
-                    transform_list[0:0] = transform
-            if element.local_name in ('svg', 'symbol'):
+                transform_list = element.transform
+                if transform_list is not None and len(transform_list) > 0:
+                    matrix = transform_list.matrix * matrix
+            if element == roots[0]:
                 break
             element = element.getparent()
-        if len(transform_list) > 0:
-            matrix = transform_list.matrix
-            ctm *= matrix
+        ctm *= matrix
         return ctm
 
     def get_bbox(self, options=None, _depth=0):
-- 
2.43.0


From 7147a872d1ad6755b8055f48c4d240175d4da12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 27/68] fix: path data of a group applies the transforms of its
 children

---
 svgpy/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 9432cee..b3e8277 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -428,7 +428,7 @@ class SVGGraphicsElement(SVGElement):
         path_data = list()
         for child in iter(self):
             if isinstance(child, SVGGraphicsElement):
-                path_data += child.get_path_data(settings)
+                path_data += child.get_transformed_path_data(settings)
         return path_data
 
     @abstractmethod
-- 
2.43.0


From 3b2bba48af2d2d7b2207b6b598643b874bcab77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 28/68] fix: a use element applies its transform once and
 outside its position

get_bbox of <use href='#r' transform='translate(10)'/> moved the instance by 20,
and a transform of the referenced element was applied after x and y.
---
 svgpy/base.py    | 5 -----
 svgpy/element.py | 7 ++-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index b3e8277..6ebb67a 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -459,11 +459,6 @@ class SVGGraphicsElement(SVGElement):
         path_data = self.get_path_data(settings)
         if len(path_data) == 0:
             return path_data
-        if self.local_name == 'use':
-            transform_list = self.instance_root.transform
-            if transform_list is not None:
-                matrix = transform_list.matrix
-                path_data = PathParser.transform(path_data, matrix)
         transform_list = self.transform  # type: SVGTransformList
         if transform_list is not None:
             matrix = transform_list.matrix
diff --git a/svgpy/element.py b/svgpy/element.py
index 8288f4a..1b0e762 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1097,12 +1097,9 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         root = self.instance_root
         if root is None or not isinstance(root, SVGGraphicsElement):
             return []
-        path_data = root.get_path_data(settings)
-
-        transform_list = self.transform
-        if transform_list is None:
-            transform_list = SVGTransformList()
+        path_data = root.get_transformed_path_data(settings)
 
+        transform_list = SVGTransformList()
         geometry = self.get_computed_geometry()
         x = geometry['x']
         y = geometry['y']
-- 
2.43.0


From f8a2f67d025961ac12ba819f0e7c0206cab3ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 29/68] fix: dataset keys and data-* names correspond as HTML
 defines

---
 svgpy/dom.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index daca701..c4a3934 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -131,33 +131,20 @@ class DOMStringMap(MutableMapping):
         self._owner_element.attributes[name] = value
 
     def _convert_key(self, name):
-        _name = name[len(self._prefix):]
-        length = len(_name)
-        key = ''
-        start = 0
-        while start < length:
-            end = _name.find('-', start)
-            if end == -1:
-                end = length
-            if start == end:
-                key += '-'
-            else:
-                part = _name[start:end]
-                if start != 0:
-                    part = part.capitalize()
-                key += part
-            start = end + 1
-        return key
+        return re.sub(r'-([a-z])',
+                      lambda matched: matched.group(1).upper(),
+                      name[len(self._prefix):])
 
     def _convert_name(self, key):
         if _RE_DOM_STRING_MAP_INVALID_SYNTAX.search(key) is not None:
             raise ValueError('Invalid syntax: ' + repr(key))
         name = self._prefix
         for ch in key:
-            if ch.isupper():
+            if 'A' <= ch <= 'Z':
                 name += '-'
+                ch = ch.lower()
             name += ch
-        return name.lower()
+        return name
 
     def _validate_name(self, name):
         _ = self
@@ -169,7 +156,8 @@ class DOMStringMap(MutableMapping):
     def keys(self):
         keys = [self._convert_key(name)
                 for name in self._owner_element.attributes
-                if name.startswith(self._prefix) and name.islower()]
+                if name.startswith(self._prefix)
+                and re.search(r'[A-Z]', name) is None]
         return KeysView(keys)
 
 
-- 
2.43.0


From ad03f9ffda711f7514b3bcf20a0c1a6691f6a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 30/68] fix: adding and multiplying numeric types takes
 percentages into account

---
 svgpy/css/types.py | 77 ++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 41 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 91d4664..b194d8d 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -174,44 +174,41 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
         elif percent_hint1 is None and percent_hint2 is not None:
             CSSNumericType.apply_percent_hint(type1, percent_hint2)
 
+        powers1 = CSSNumericType._get_powers(type1)
+        powers2 = CSSNumericType._get_powers(type2)
+        keys = set(powers1) | set(powers2)
+        if powers1 != powers2 and keys == {CSSNumericType.PERCENT}:
+            # a percentage may stand for a number
+            if powers1 and powers2:
+                return None
+        elif powers1 != powers2:
+            if CSSNumericType.PERCENT not in keys:
+                return None
+            for hint in (CSSNumericType.LENGTH, CSSNumericType.ANGLE,
+                         CSSNumericType.TIME, CSSNumericType.FREQUENCY,
+                         CSSNumericType.RESOLUTION, CSSNumericType.FLEX):
+                hinted_type1 = CSSNumericType.apply_percent_hint(
+                    type1.copy(), hint)
+                hinted_type2 = CSSNumericType.apply_percent_hint(
+                    type2.copy(), hint)
+                if (CSSNumericType._get_powers(hinted_type1)
+                        == CSSNumericType._get_powers(hinted_type2)):
+                    type1, type2 = hinted_type1, hinted_type2
+                    break
+            else:
+                return None
+
         final_type = CSSNumericType()
-        base_type_keys = {CSSNumericType.LENGTH, CSSNumericType.ANGLE,
-                          CSSNumericType.TIME, CSSNumericType.FREQUENCY,
-                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX}
-        keys1 = {key for key in set(type1) & base_type_keys
-                 if type1[key] != 0}
-        keys2 = {key for key in set(type2) & base_type_keys
-                 if type2[key] != 0}
-        if (all(key in type2 for key in keys1)
-                and all(key in type1 for key in keys2)
-                and all(type1[key] == type2[key]
-                        for key in keys1 | keys2)):
-            final_type.update(type1)
-            for key in type2:
-                if key not in final_type:
-                    final_type[key] = type2[key]
-            return final_type
-
-        if (any([type1.percent, type2.percent])
-                and (any([type1[key] for key in type1
-                          if key != CSSNumericType.PERCENT])
-                     or any([type2[key] for key in type2
-                             if key != CSSNumericType.PERCENT]))):
-            for key in base_type_keys:
-                value1 = type1.get(key, 0)
-                value2 = type2.get(key, 0)
-                if any([value1, value2]) and value1 != value2:
-                    CSSNumericType.apply_percent_hint(type1, key)
-                    CSSNumericType.apply_percent_hint(type2, key)
-                if type1.get(key, 0) != type2.get(key, 0):
-                    return None
-            final_type.update(type1)
-            for key in set(type2) & base_type_keys:
-                if key not in final_type and type2[key] != 0:
-                    final_type[key] = type2[key]
-            return final_type
+        final_type.update(type1)
+        for key in type2:
+            if key not in final_type and type2[key] != 0:
+                final_type[key] = type2[key]
+        return final_type
 
-        return None
+    @staticmethod
+    def _get_powers(type_):
+        return {key: power for key, power in type_.items()
+                if key != CSSNumericType.PERCENT_HINT and power != 0}
 
     @staticmethod
     def apply_percent_hint(type_, hint):
@@ -324,11 +321,9 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
 
         final_type = CSSNumericType()
         final_type.update(type1)
-        base_type_keys = {CSSNumericType.LENGTH, CSSNumericType.ANGLE,
-                          CSSNumericType.TIME, CSSNumericType.FREQUENCY,
-                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX}
-        for key in set(type2) & base_type_keys:
-            power = type2[key]
+        for key, power in type2.items():
+            if key == CSSNumericType.PERCENT_HINT:
+                continue
             if key in final_type:
                 final_type[key] += power
             else:
-- 
2.43.0


From a4dac1311746c69c0d09db25ec6797d640938faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 31/68] fix: inverting a numeric value keeps the percent hint
 of its type

---
 svgpy/css/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index b194d8d..f2472e0 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1260,7 +1260,8 @@ class CSSMathInvert(CSSMathValue):
         self._value = values[0]
         self._type = self._value.type().copy()
         for key in list(self._type):
-            self._type[key] *= -1
+            if key != CSSNumericType.PERCENT_HINT:
+                self._type[key] *= -1
 
     @property
     def operator(self):
-- 
2.43.0


From 4344e37f80c736173b8faf6eb485f666de922996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 32/68] fix: values of a power of a unit do not convert to the
 unit

---
 svgpy/css/types.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index f2472e0..75f2ac5 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1146,15 +1146,7 @@ class CSSNumericValue(CSSStyleValue):
         sum_value = self.create_sum_value()
         if sum_value is None or len(sum_value) != 1:
             raise ValueError('Cannot convert to ' + repr(unit))
-        value, unit_map = sum_value[0]
-        units = [unit for unit, power in unit_map.items() if power != 0]
-        unit_map_length = len(units)
-        if unit_map_length == 0:
-            item = CSSUnitValue(value, UnitType.NUMBER)
-        elif unit_map_length > 1:
-            raise ValueError('Incompatible types')
-        else:
-            item = CSSUnitValue(value, units[0])
+        item = CSSUnitValue.create_from_sum_value_item(sum_value[0])
         if item.unit == unit.lower():
             return item
         return item.to(unit)
-- 
2.43.0


From c7d878cd42c1013afedee7821ec88005aa6b9454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 33/68] fix: a sum adds up only values of the same units

---
 svgpy/css/types.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 75f2ac5..22e0264 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1539,9 +1539,8 @@ class CSSMathSum(CSSMathValue):
             if value is None:
                 return None
             for sub_value, sub_unit_map in value:
-                sub_unit_map_keys = sorted(sub_unit_map.keys())
                 found = [i for i, (value, unit_map) in enumerate(values)
-                         if sorted(unit_map.keys()) == sub_unit_map_keys]
+                         if unit_map == sub_unit_map]
                 if len(found) == 0:
                     values.append([sub_value, sub_unit_map])
                 else:
-- 
2.43.0


From 64ef2ca2a67f9bccff61e888d3095798dd196391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 34/68] fix: equal negate, invert and clamp values are equal

---
 svgpy/css/types.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 22e0264..0c52699 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1085,6 +1085,18 @@ class CSSNumericValue(CSSStyleValue):
                 for value1, value2 in zip(self.values, item.values):
                     if not value1.equals(value2):
                         return False
+            elif ((isinstance(self, CSSMathNegate)
+                   and isinstance(item, CSSMathNegate))
+                  or (isinstance(self, CSSMathInvert)
+                      and isinstance(item, CSSMathInvert))):
+                if not self.value.equals(item.value):
+                    return False
+            elif (isinstance(self, CSSMathClamp)
+                  and isinstance(item, CSSMathClamp)):
+                if (not self.min.equals(item.min)
+                        or not self.val.equals(item.val)
+                        or not self.max.equals(item.max)):
+                    return False
             else:
                 return False
         return True
-- 
2.43.0


From 9b1a87745a4362c839d3335d7c5d9396906e09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 35/68] fix: arithmetic in parentheses and arguments of math
 functions

min(), max() and clamp() took the operators of an argument for their own,
parentheses were refused, and a product after a subtraction was lost when
a product preceded it.
---
 svgpy/css/types.py | 47 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 0c52699..ff88cf2 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -871,7 +871,8 @@ class CSSNumericValue(CSSStyleValue):
     def _parse_math_expression(css_text, token, root_node=None):
         function_name = token.lower_name
         if function_name == 'calc':
-            operator = None
+            return CSSNumericValue._parse_calc_expression(
+                css_text, token.arguments, root_node=root_node)
         elif function_name == 'clamp':
             operator = CSSMathOperator.CLAMP
         elif function_name == 'max':
@@ -881,20 +882,34 @@ class CSSNumericValue(CSSStyleValue):
         else:
             raise ValueError('Invalid math expression: ' + repr(token))
 
-        args = [arg for arg in token.arguments if arg.type != 'whitespace']
+        node = _MathExpression(root_node, operator, [])
+        groups = [[]]
+        for arg in token.arguments:
+            if arg.type == 'literal' and arg.value == ',':
+                groups.append([])
+            else:
+                groups[-1].append(arg)
+        for args in groups:
+            value = CSSNumericValue._parse_calc_expression(
+                css_text, args, root_node=node)
+            if value.operator is None:
+                # a single value
+                value = value.values[0]
+            node.values.append(value)
+        return node
+
+    @staticmethod
+    def _parse_calc_expression(css_text, tokens, root_node=None):
+        args = [arg for arg in tokens if arg.type != 'whitespace']
         if len(args) == 0:
             raise ValueError('Invalid math expression: ' + repr(css_text))
-        current_node = _MathExpression(root_node, operator, [])
+        current_node = _MathExpression(root_node, None, [])
         while len(args) > 0:
             arg = args.pop(0)
             operator = current_node.operator
             if arg.type == 'literal':
                 literal = arg.value
-                if (literal == ',' and operator in (CSSMathOperator.CLAMP,
-                                                    CSSMathOperator.MAX,
-                                                    CSSMathOperator.MIN)):
-                    continue
-                elif literal == '*':
+                if literal == '*':
                     if operator is None:
                         current_node.operator = CSSMathOperator.PRODUCT
                     elif operator != CSSMathOperator.PRODUCT:
@@ -911,7 +926,8 @@ class CSSNumericValue(CSSStyleValue):
                     elif operator != CSSMathOperator.SUM:
                         while True:
                             parent_node = current_node.parent
-                            if parent_node is None:
+                            if (parent_node is None
+                                    or parent_node is root_node):
                                 break
                             current_node = parent_node
                         previous_node = current_node
@@ -964,9 +980,10 @@ class CSSNumericValue(CSSStyleValue):
                             current_node.values.append(next_node)
                         else:
                             parent_node = current_node.parent
-                            if parent_node is None:
+                            if (parent_node is None
+                                    or parent_node is root_node):
                                 parent_node = _MathExpression(
-                                    None,
+                                    root_node,
                                     CSSMathOperator.SUM,
                                     [current_node, next_node])
                                 current_node.parent = parent_node
@@ -975,10 +992,11 @@ class CSSNumericValue(CSSStyleValue):
                             else:
                                 previous_value = parent_node.values.pop(-1)
                                 node = _MathExpression(
-                                    current_node,
+                                    parent_node,
                                     CSSMathOperator.SUM,
                                     [previous_value, next_node])
                                 parent_node.values.append(node)
+                                current_node = node
                 else:
                     raise ValueError('Invalid math expression: ' + repr(arg))
             else:
@@ -1015,6 +1033,11 @@ class CSSNumericValue(CSSStyleValue):
                 css_text,
                 token,
                 root_node=root_node)
+        elif token.type == '() block':
+            return CSSNumericValue._parse_calc_expression(
+                css_text,
+                token.content,
+                root_node=root_node)
         raise ValueError('Invalid math expression: ' + repr(token))
 
     @staticmethod
-- 
2.43.0


From 3a860e11f4c55ab7503c2476487ee9d5ee9d087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 36/68] fix: math expressions whose operands and operators do
 not alternate are refused

---
 svgpy/css/types.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index ff88cf2..ae4bc78 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -889,6 +889,8 @@ class CSSNumericValue(CSSStyleValue):
                 groups.append([])
             else:
                 groups[-1].append(arg)
+        if operator == CSSMathOperator.CLAMP and len(groups) != 3:
+            raise ValueError('Invalid math expression: ' + repr(css_text))
         for args in groups:
             value = CSSNumericValue._parse_calc_expression(
                 css_text, args, root_node=node)
@@ -901,7 +903,10 @@ class CSSNumericValue(CSSStyleValue):
     @staticmethod
     def _parse_calc_expression(css_text, tokens, root_node=None):
         args = [arg for arg in tokens if arg.type != 'whitespace']
-        if len(args) == 0:
+        if (len(args) % 2 == 0
+                or any((arg.type == 'literal') == (i % 2 == 0)
+                       for i, arg in enumerate(args))):
+            # operands and operators do not alternate
             raise ValueError('Invalid math expression: ' + repr(css_text))
         current_node = _MathExpression(root_node, None, [])
         while len(args) > 0:
-- 
2.43.0


From a8b7bd1f0c3b029f266b95f469a795e4a32ff8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 37/68] fix: nested negations, inverses and products keep their
 parentheses when serialized

---
 svgpy/css/types.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index ae4bc78..acf338e 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1321,7 +1321,10 @@ class CSSMathInvert(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
-        s += '1 / ' + self._value.tostring(**kwargs)
+        kwargs2 = kwargs.copy()
+        kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
+        s += '1 / ' + self._value.tostring(**kwargs2)
         if not paren_less:
             s += ')'
         return s
@@ -1469,8 +1472,11 @@ class CSSMathNegate(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
+        kwargs2 = kwargs.copy()
+        kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += '-'
-        s += self._value.tostring(**kwargs)
+        s += self._value.tostring(**kwargs2)
         if not paren_less:
             s += ')'
         return s
@@ -1532,6 +1538,7 @@ class CSSMathProduct(CSSMathValue):
             s = ''
         kwargs2 = kwargs.copy()
         kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathInvert):
@@ -1611,6 +1618,7 @@ class CSSMathSum(CSSMathValue):
             s = ''
         kwargs2 = kwargs.copy()
         kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathNegate):
-- 
2.43.0


From 546fdd91c3d9f0960188d4e9e84234faf4a5e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 38/68] fix: aspect ratios compare by =, < and > like other
 media features

Unequal ratios matched '=', equal ones '<', and device-aspect-ratio was
compared as a length.
---
 svgpy/css/mediaquery.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index 0ca8242..3434895 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -205,20 +205,18 @@ def _eval_expr_compare(node, conditions, compare_func, user_data=None):
             if not result:
                 return False, None
         elif ((left_expr == MQ_EXPR_NAME or right_expr == MQ_EXPR_NAME)
-              and name == 'aspect-ratio'):
+              and name in ('aspect-ratio', 'device-aspect-ratio')):
             # value: <ratio>
             # e.g.: '(aspect-ratio: 16/9)' -> '(aspect-ratio == 16/9)'
             left_ratio = Fraction(left_value)
             right_ratio = Fraction(right_value)
-            if op[-1] == '=' and left_ratio == right_ratio:
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), True))
-            else:
-                cmp = left_ratio > right_ratio
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), cmp))
-                if (op[0] == '>' and not cmp) or (op[0] == '<' and cmp):
-                    return False, None
+            cmp = (left_ratio > right_ratio) - (left_ratio < right_ratio)
+            logger.debug('feature \'{}\': {} {} {}: result={}'.format(
+                name, repr(left_ratio), op, repr(right_ratio), cmp))
+            if not ((cmp == 0 and op[-1] == '=')
+                    or (cmp > 0 and op[0] == '>')
+                    or (cmp < 0 and op[0] == '<')):
+                return False, None
         else:
             # value: <length> | <resolution> | <mq-boolean> | <integer>
             # e.g.: '(1 < color-index < 255)' ->
-- 
2.43.0


From 870e93de22ea11c65de951268db34edfa4783cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 39/68] fix: a style sheet reference without a URL is ignored

---
 svgpy/style.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index ff8998c..315a996 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -174,7 +174,7 @@ def get_css_style_sheet_from_element(element, doc=None):
                 element, repr(rel_list), repr(as_)))
             return None  # TODO: support alternative style sheet.
         href = element.href
-        if href is None or href[0] == '#':
+        if not href or href[0] == '#':
             logger.debug('invalid URL: {} href={}'.format(
                 element, repr(href)))
             return None
@@ -252,7 +252,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
         elif element.target != 'xml-stylesheet':
             continue
         href = element.get('href')
-        if (href is None
+        if (not href
                 or href[0] == '#'
                 or element.get('alternate', '') == 'yes'):
             logger.debug('not a style sheet: {}'.format(element))
-- 
2.43.0


From ffb864053e4ed4495cd258b9732f165e28bb75f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 40/68] fix: font and font-family of the same element

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c4a3934..cf3ef73 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2001,7 +2001,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                     elif key == 'font-family':
                         # 'font-family' property
                         style[key] = CSSUtils.parse_font_family(value)
-                        del inherited_props[key]
+                        inherited_props.pop(key, None)
                     elif key == 'font-variant':
                         # 'font-variant' shorthand property
                         style[key] = value
-- 
2.43.0


From 490bb2d12747f524e5226e76f4f1b9bd5b53d338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 41/68] fix: rules of style sheets override presentation
 attributes

---
 svgpy/dom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index cf3ef73..ba8c1d4 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1985,8 +1985,11 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         css_rules = get_css_rules(self)
         element = self
         while element is not None:
-            css_style, css_style_important = get_css_style(element, css_rules)
-            css_style.update(element.attrib)
+            # presentation attributes precede the rules of style sheets
+            css_style = dict(element.attrib)
+            css_style_rules, css_style_important = get_css_style(
+                element, css_rules)
+            css_style.update(css_style_rules)
             _style = css_style.pop('style', None)
             if _style is not None:
                 css_style.update(style_to_dict(_style))
-- 
2.43.0


From 2b2e2fdd70fd8f8220a1601e49f8612bc4eb5083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 42/68] fix: media features in parentheses without or with
 surrounding spaces

---
 svgpy/css/mediaquery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index 3434895..8d7e5d0 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -39,7 +39,7 @@ _RE_MEDIA_QUERY = re.compile(
 
 _RE_MEDIA_IN_PARENS = re.compile(
     r"(?P<mf_plain>\(\s*\S+\s*:\s*\S+\s*\))"
-    r"|(?P<mf_boolean>\(\s*\S+\s*\))"
+    r"|(?P<mf_boolean>\(\s*[^<>\s]+\s*\))"
     r"|(?P<mf_range>\(\s*[^<> ]+\s*[<>]=?\s*[^<>) ]+\s*"
     r"([<>]=?\s*[^<>) ]+\s*)?\))"
     r"|(?P<media_not>not\s+\(.+\))"
@@ -412,7 +412,7 @@ def _parse_mf_boolean(query, parent):
         values = parent.setdefault(MQ_VALUES, [])
     node = dict({
         MQ_EXPR: MQ_EXPR_NAME,
-        MQ_ID: query.strip('()'),
+        MQ_ID: query.strip('()').strip(),
     })
     values.append(node)
     return node
-- 
2.43.0


From 46cea816cce8ac15fe8889ff754ced3b6ebf63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 43/68] fix: at-rules without their block are ignored

---
 svgpy/css/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ecd44f2..d2cf52b 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1775,7 +1775,11 @@ class CSSParser(object):
         css_rules = list()
         for rule in rules:
             if rule.type == 'at-rule':
-                if rule.lower_at_keyword == 'font-face':
+                if (rule.content is None
+                        and rule.lower_at_keyword in (
+                            'font-face', 'font-feature-values', 'media')):
+                    continue  # invalid: no block
+                elif rule.lower_at_keyword == 'font-face':
                     # @font-face at-rule
                     css_rule = CSSFontFaceRule(
                         rule,
-- 
2.43.0


From 51b0156715a0953e06efa7e6110479c1fa13655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 44/68] fix: font feature values without a block or a last
 semicolon

---
 svgpy/css/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index d2cf52b..b3f4615 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1046,12 +1046,15 @@ class CSSFontFeatureValuesRule(CSSRule):
                                          skip_comments=True,
                                          skip_whitespace=True)
         for node in nodes:
-            if node.type == 'at-rule':
+            if node.type == 'at-rule' and node.content is not None:
                 # tinycss2.parse_one_component_value() returns ParseError
                 feature_type = node.lower_at_keyword
                 name = None
                 feature_values = None
-                for token in node.content:
+                # the last declaration may have no semicolon
+                end = tinycss2.ast.LiteralToken(
+                    node.source_line, node.source_column, ';')
+                for token in node.content + [end]:
                     if token.type == 'ident':
                         name = token.value
                     elif token.type == 'literal' and token.value == ':':
-- 
2.43.0


From 5eb7d0f4990089a6aeb0f8c4bae5c5ae3df8b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 45/68] fix: namespace rules whose name is a string

---
 svgpy/css/__init__.py | 2 +-
 svgpy/style.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index b3f4615..3f1597c 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1277,7 +1277,7 @@ class CSSNamespaceRule(CSSRule):
 
     def _parse_prelude(self, prelude):
         for token in prelude:
-            if token.type == 'url':
+            if token.type in ('string', 'url'):
                 self._namespace_uri = token.value
             elif token.type == 'ident':
                 self._prefix = token.value
diff --git a/svgpy/style.py b/svgpy/style.py
index 315a996..45abd91 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -309,7 +309,7 @@ def get_css_style(element, css_rules):
             # TODO: support CSS @font-feature-values at-rule.
             pass
         elif css_rule.type == CSSRule.NAMESPACE_RULE:
-            if len(css_rule.namespace_uri) > 0:
+            if css_rule.namespace_uri:
                 prefix = css_rule.prefix
                 if len(prefix) == 0:
                     prefix = 'svg'
-- 
2.43.0


From 73acc5b849c2e99adf2409a62bfd30c6dcda577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 46/68] fix: an overflow value that is no keyword is ignored

---
 svgpy/css/shorthands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 3886b35..684220c 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -728,7 +728,7 @@ class OverflowShorthand(ShorthandProperty):
             for property_name in shorthand_property_map['overflow']:
                 components_map[property_name] = initial_value.copy()
         else:
-            temp = [x for x in components_map['overflow-x']
+            temp = [x for x in components_map.get('overflow-x', [])
                     if x.type != 'whitespace']
             if not (1 <= len(temp) <= 2):
                 return False
-- 
2.43.0


From c1a1f9603d3b2aec2bb7c4b3debaec5b40f029f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 47/68] fix: malformed values of shorthand properties are
 ignored

---
 svgpy/css/__init__.py | 3 ++-
 svgpy/css/props.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 3f1597c..b539f0f 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1448,7 +1448,8 @@ class CSSStyleDeclaration(MutableMapping):
         component_list = tinycss2.parse_component_value_list(
             value,
             skip_comments=True)
-        if len(component_list) == 0:
+        if (len(component_list) == 0
+                or any(x.type == 'error' for x in component_list)):
             return False, ''
         result = ''
         if Shorthand.is_shorthand(property_name):
diff --git a/svgpy/css/props.py b/svgpy/css/props.py
index 3ee55fa..38232a4 100644
--- a/svgpy/css/props.py
+++ b/svgpy/css/props.py
@@ -343,7 +343,8 @@ class PropertyDescriptor(object):
             return False, None
         elif token.type == 'error':
             raise ValueError('Cannot parse for property: ' + repr(token))
-        raise NotImplementedError(token)
+        # simple blocks
+        return False, None
 
     def supports(self, css_text):
         tokens = tinycss2.parse_component_value_list(css_text,
-- 
2.43.0


From b4cae2f858f2f7a89355a3d13ebbd86c5cd07a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 48/68] fix: imports are relative to the style sheet that was
 loaded

---
 svgpy/css/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index b539f0f..a504afd 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -929,6 +929,12 @@ class StyleSheet(object):
         self._parent_style_sheet = parent_style_sheet
         self._title = title
         self._disabled = disabled
+        self._base_url = None
+
+    @property
+    def base_url(self):
+        """str: The base URL of the relative URLs in the style sheet."""
+        return self._base_url
 
     @property
     def disabled(self):
@@ -1152,7 +1158,7 @@ class CSSImportRule(CSSRule):
     def _parse_prelude(self, prelude):
         if self.parent_style_sheet is not None:
             owner_node = self.parent_style_sheet.owner_node
-            base_url = self.parent_style_sheet.href
+            base_url = self.parent_style_sheet.base_url
             if base_url is None and owner_node is not None:
                 doc = owner_node.owner_document
                 if doc is not None:
@@ -1753,6 +1759,7 @@ class CSSParser(object):
         try:
             logger.debug('urlopen \'{}\''.format(url))
             data, headers = load(url)
+            css_style_sheet._base_url = normalize_url(url).href
             if encoding is None:
                 content_type = get_content_type(headers)
                 if content_type is None:
-- 
2.43.0


From 670166cb1eee43c80b25b0c1afb0f5e29a0b6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 49/68] fix: important declarations of a block win over later
 normal ones

---
 svgpy/css/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index a504afd..c9baef8 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1434,6 +1434,10 @@ class CSSStyleDeclaration(MutableMapping):
                 property_name = node.name
                 value = tinycss2.serialize(node.value)
                 priority = 'important' if node.important else ''
+                if (not node.important
+                        and self.get_property_priority(property_name)
+                        == 'important'):
+                    continue  # important declarations win
                 self.set_property(property_name, value, priority)
 
     def _set_css_declaration(self, declarations, property_name,
-- 
2.43.0


From 69dd397fa3749b67f51ab444cfdeb82d3d66ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 50/68] fix: declarations without a value are ignored

---
 svgpy/css/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index c9baef8..1c1e6d0 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1438,6 +1438,8 @@ class CSSStyleDeclaration(MutableMapping):
                         and self.get_property_priority(property_name)
                         == 'important'):
                     continue  # important declarations win
+                elif len(value.strip()) == 0:
+                    continue  # invalid: no value
                 self.set_property(property_name, value, priority)
 
     def _set_css_declaration(self, declarations, property_name,
-- 
2.43.0


From dfb43b250b8dbd8a92ffb7dec0ca2372edb907cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 51/68] fix: styles set properties that are not inherited, too

---
 svgpy/dom.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index ba8c1d4..a067bc3 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1909,9 +1909,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'unicode-bidi': 'normal',
              'vector-effect': 'none',
              }
-        for key in iter(non_inherited_props):
-            style.setdefault(key,
-                             self.get(key, non_inherited_props[key]))
+        style.update(non_inherited_props)
 
         inherited_props = \
             {'clip-rule': 'nonzero',
@@ -1994,6 +1992,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             if _style is not None:
                 css_style.update(style_to_dict(_style))
             css_style.update(css_style_important)
+            if element is self:
+                for key in non_inherited_props:
+                    style[key] = css_style.get(key, style[key])
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
                 if value is not None and value not in ['inherit']:
-- 
2.43.0


From 5903dadf0e21b2742aac844b00d71c9a8fcd1b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 52/68] fix: the marker property sets the three markers

---
 svgpy/dom.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index a067bc3..b055f80 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2012,8 +2012,13 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         _update_font_variant_prop(value, style,
                                                   inherited_props)
                     elif key == 'marker':
-                        # TODO: parse the 'marker' shorthand property.
-                        raise NotImplementedError
+                        # 'marker' shorthand property
+                        style[key] = value
+                        inherited_props.pop(key, None)
+                        for _key in ('marker-start', 'marker-mid',
+                                     'marker-end'):
+                            style.setdefault(_key, value)
+                            inherited_props.pop(_key, None)
                     else:
                         if key in ['font-variant-alternates',
                                    'font-variant-east-asian',
-- 
2.43.0


From 7b75d4eac7c2bdd31375c464042d4272a1d4a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 53/68] fix: colons in the values of style attributes

---
 svgpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index afd8f80..e3e87e9 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -247,7 +247,7 @@ def style_to_dict(text):
     """
     if text is None or len(text.strip()) == 0:
         return OrderedDict()
-    items = [x.split(':') for x in iter(text.strip().split(';'))]
+    items = [x.split(':', 1) for x in iter(text.strip().split(';'))]
     items = [x for x in items if len(x) == 2]
     return OrderedDict(
         (key.strip(), value.strip()) for key, value in iter(items)
-- 
2.43.0


From b46e6699af3d1537213dfc02f553c83f9553db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 54/68] fix: important declarations of style attributes

---
 svgpy/dom.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index b055f80..21bb424 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1990,7 +1990,13 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             css_style.update(css_style_rules)
             _style = css_style.pop('style', None)
             if _style is not None:
-                css_style.update(style_to_dict(_style))
+                for key, value in style_to_dict(_style).items():
+                    items = value.rsplit('!', 1)
+                    if (len(items) == 2
+                            and items[1].strip().lower() == 'important'):
+                        css_style_important[key] = items[0].rstrip()
+                    else:
+                        css_style[key] = value
             css_style.update(css_style_important)
             if element is self:
                 for key in non_inherited_props:
-- 
2.43.0


From d88e8bd341b4cb9ea1aed2b8e5c659f0b1bfbbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 55/68] fix: font families of several words and slashes with
 spaces in font values

---
 svgpy/core.py | 63 +++++++++++++++++++++------------------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index a914a4c..fecdf86 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -17,7 +17,6 @@ import copy
 import html
 import math
 import re
-import shlex
 import unicodedata
 from decimal import Decimal, InvalidOperation
 
@@ -80,6 +79,9 @@ class CSSUtils(object):
     _LIGHTER_WEIGHT_LIST = [100, 100, 100, 100, 100, 400, 400, 700, 700]
 
     _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}', re.MULTILINE)
+    _RE_FONT_COMPONENT = re.compile(
+        r'(?:[a-zA-Z-]+\([^)]*\)|"[^"]*"|\'[^\']*\'|[^\s/])+|/')
+    _RE_FONT_FAMILY_NAME = re.compile(r'(?:"[^"]*"|\'[^\']*\'|[^,])+')
     _RE_SEGMENT_BREAKS = re.compile(r'(\r\n|\r|\n)+', re.MULTILINE)
     _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'^(\x20|\t)+', re.MULTILINE)
     _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+$', re.MULTILINE)
@@ -341,7 +343,7 @@ class CSSUtils(object):
         #  || <font-weight> || <font-stretch> ]? <font-size>
         #  [ / <line-height> ]? <font-family> ]
         #  | caption | icon | menu | message-box | small-caption | status-bar
-        items = shlex.split(value)
+        items = CSSUtils._RE_FONT_COMPONENT.findall(value)
         if len(items) == 0:
             return {}
         for item in iter(items):
@@ -363,37 +365,8 @@ class CSSUtils(object):
             'line-height': Font.CSS_DEFAULT_LINE_HEIGHT,
         })
 
-        # 'font-family' property
-        font_family = list([items.pop()])
-        delimiter = False
-        while len(items) > 0:
-            item = items[-1]
-            if item == ',':
-                # 'a_,_b' -> ['a', ',', 'b']
-                delimiter = True
-            elif delimiter or item.endswith(','):
-                font_family.insert(0, item)
-                delimiter = False
-            else:
-                break
-            items.pop()
-        style['font-family'] = CSSUtils.parse_font_family(font_family)
-
-        # 'font-size' and 'line-height' properties
-        try:
-            item = items.pop()
-        except IndexError:
-            return {}
-        if item.find('/') != -1:
-            # 'font-size' [/ 'line-height']
-            parts = item.split('/')
-            style['font-size'] = parts[0]
-            style['line-height'] = parts[1]
-        else:
-            style['font-size'] = item
-
         while len(items) > 0:
-            item = items.pop(0)
+            item = items[0]
             if item == 'normal':
                 pass
             elif item in ['italic', 'oblique']:
@@ -413,6 +386,23 @@ class CSSUtils(object):
                 style['font-stretch'] = item
             else:
                 break
+            items.pop(0)
+
+        # 'font-size' and 'line-height' properties
+        if len(items) == 0:
+            return {}
+        style['font-size'] = items.pop(0)
+        if len(items) > 0 and items[0] == '/':
+            # 'font-size' [/ 'line-height']
+            items.pop(0)
+            if len(items) == 0:
+                return {}
+            style['line-height'] = items.pop(0)
+
+        # 'font-family' property
+        style['font-family'] = CSSUtils.parse_font_family(' '.join(items))
+        if len(style['font-family']) == 0:
+            return {}
 
         return style
 
@@ -434,17 +424,16 @@ class CSSUtils(object):
         if isinstance(value, list):
             items = value
         elif isinstance(value, str):
-            if '"' in value or '\'' in value:
-                items = shlex.split(value)
-            else:
-                items = [value]
+            items = [value]
         else:
             raise TypeError('Expected str or list, got {}'.format(
                 type(value)))
         font_family = list()
         for item in iter(items):
-            for name in iter(item.split(',')):
+            for name in CSSUtils._RE_FONT_FAMILY_NAME.findall(item):
                 name = name.strip()
+                if name[:1] in ('"', '\''):
+                    name = name.strip(name[0])
                 if len(name) > 0:
                     font_family.append(name)
         return font_family
-- 
2.43.0


From b627a7157330db9de026ea06b8e1a7ad3b873885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 56/68] fix: font-variant beside font, and malformed font
 values are ignored

---
 svgpy/dom.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 21bb424..accde55 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1851,8 +1851,14 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         return style
 
     def get_inherited_style(self):
-        def _update_font_prop(_value, _style, _inherited_style):
+        def _update_font_prop(_value, _style, _inherited_style, _css_style):
             _other = CSSUtils.parse_font(_value)
+            if len(_other) == 0:
+                return
+            if _css_style.get('font-variant') not in [None, 'inherit']:
+                # declared on the same element
+                del _other['font-variant']
+            _style.setdefault('font', _value)
             for _key in _other:
                 if _key not in _style:
                     _style[_key] = _other[_key]
@@ -2006,8 +2012,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 if value is not None and value not in ['inherit']:
                     if key == 'font':
                         # 'font' shorthand property
-                        style[key] = value
-                        _update_font_prop(value, style, inherited_props)
+                        _update_font_prop(value, style, inherited_props,
+                                          css_style)
                     elif key == 'font-family':
                         # 'font-family' property
                         style[key] = CSSUtils.parse_font_family(value)
-- 
2.43.0


From 2afbf2377bc159097d0fe89cecc9827780cccd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 57/68] fix: bolder, lighter, larger and smaller of the element
 itself, numbers as line heights

---
 svgpy/core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index fecdf86..fde5ebc 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -116,7 +116,7 @@ class CSSUtils(object):
             if inherited_size is None:
                 inherited_size = Font.default_font_size
             parent_sequence = list()
-            parent = element.getparent()
+            parent = element
             while parent is not None:
                 parent_sequence.insert(0, parent)
                 parent = parent.getparent()
@@ -125,7 +125,7 @@ class CSSUtils(object):
                 if value is None:
                     continue
                 elif value in ['larger', 'smaller']:
-                    scale_factor = 1.2 if font_size == 'larger' else 1 / 1.2
+                    scale_factor = 1.2 if value == 'larger' else 1 / 1.2
                     inherited_size *= scale_factor
                 else:
                     inherited_size = CSSUtils.compute_font_size(
@@ -174,7 +174,7 @@ class CSSUtils(object):
             if inherited_weight is None:
                 inherited_weight = Font.default_font_weight
             parent_sequence = list()
-            parent = element.getparent()
+            parent = element
             while parent is not None:
                 parent_sequence.insert(0, parent)
                 parent = parent.getparent()
@@ -219,8 +219,11 @@ class CSSUtils(object):
                 # <percentage>
                 line_height = (h.value(SVGLength.TYPE_PERCENTAGE) / 100
                                * font_size)
+            elif h.unit == SVGLength.TYPE_NUMBER:
+                # <number>
+                line_height = h.value() * font_size
             else:
-                # <length> or <number>
+                # <length>
                 line_height = h.value()
         return line_height
 
-- 
2.43.0


From 2822c2e750975667f84f2c9b2054a27c32c46a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:02 +0000
Subject: [PATCH 58/68] fix: setting a declaration to None removes it

---
 svgpy/css/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 1c1e6d0..df2a9b8 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1574,7 +1574,7 @@ class CSSStyleDeclaration(MutableMapping):
         """
         if self._readonly:
             raise NoModificationAllowedError('The object can not be modified')
-        value = normalize_text(value)
+        value = '' if value is None else normalize_text(value)
         if len(value) == 0:
             self.remove_property(property_name)
             return
-- 
2.43.0


From 5b72575a5996f17efbf4737527dad8f9ade0a962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 59/68] fix: append and prepend keep the order of nodes and
 text

---
 svgpy/dom.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index accde55..afcf290 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1588,23 +1588,19 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         for node in nodes:
             if not isinstance(node, str):
                 self.ensure_pre_insertion_validity(node)
-        data = ''
-        target = self
+        for node in nodes:
+            if not isinstance(node, str) and node in self:
+                super().remove(node)  # move
         for node in nodes:
             if isinstance(node, str):
-                data += node
+                last_child = self.last_child
+                if last_child is None:
+                    node_append_data(self, node, tail=False)
+                else:
+                    node_append_data(last_child, node)
                 continue
-            if len(data) > 0:
-                tail = False if target == self else True
-                node_append_data(target, data, tail)
-                data = ''
             node.attach_document(self.owner_document)
             super().append(node)
-            target = node
-
-        if len(data) > 0:
-            tail = False if target == self else True
-            node_append_data(target, data, tail)
 
     def append_child(self, node):
         """Adds a sub-node to the end of this node.
@@ -2212,6 +2208,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         for node in nodes:
             if not isinstance(node, str):
                 self.ensure_pre_insertion_validity(node)
+        for node in nodes:
+            if not isinstance(node, str) and node in self:
+                super().remove(node)  # move
         first_child = self.first_child
         data = ''
         target = self
@@ -2229,7 +2228,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             node.attach_document(self.owner_document)
             if first_child is None:
                 super().append(node)
-                first_child = node
             else:
                 first_child.addprevious(node)
             target = node
-- 
2.43.0


From 4e3212433a83c44067c25a825a970ab05f135b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 60/68] fix: text_content keeps the text after comments and
 other nodes

---
 svgpy/dom.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index afcf290..360be01 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1538,15 +1538,12 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             chars.append(element.text)
 
         for child in iter(element):
-            if child.node_type != Node.ELEMENT_NODE:
-                continue
-            local_name = child.local_name
-            if local_name in Element.TEXT_CONTENT_ELEMENTS:
+            if (child.node_type == Node.ELEMENT_NODE
+                    and child.local_name in Element.TEXT_CONTENT_ELEMENTS):
                 contents = Element._get_text_content(child)
                 chars.extend(contents)
-                if (local_name in Element.TEXT_CONTENT_CHILD_ELEMENTS
-                        and child.tail is not None):
-                    chars.append(child.tail)
+            if child.tail is not None:
+                chars.append(child.tail)
         return chars
 
     def addnext(self, node):
-- 
2.43.0


From 93315d33bcbab370b28ee89481bdbcf4317769d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 61/68] fix: comments inside text elements do not break text
 layout

---
 svgpy/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 5ef6935..ec82f3c 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -112,8 +112,10 @@ class SVGTextContentElement(SVGGraphicsElement):
                     chars_info += child_chars_info
                     prev_text = out_text
                     first = False
-            if (child.local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS
-                    and child.tail is not None):
+            if (child.tail is not None
+                    and (child.node_type != Node.ELEMENT_NODE
+                         or child.local_name
+                         in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS)):
                 out_text = CSSUtils.normalize_text_content(
                     child,
                     child.tail,
-- 
2.43.0


From fa874fe1015071e8d808d890ec0f590f589bad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 62/68] fix: Document.iter accepts several tags

---
 svgpy/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index a959218..2828d48 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -541,7 +541,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         """
         nodes = list()
         for node in self.child_nodes:
-            children = node.iter(tag=tag, *tags)
+            children = node.iter(tag, *tags)
             for child in children:
                 nodes.append(child)
         return iter(nodes)
-- 
2.43.0


From c5cfcadd57d3dc8bf232e8a61c99b874d719a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 63/68] fix: DOMTokenList.toggle refuses invalid tokens also
 when removing

---
 svgpy/dom.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 360be01..30464f6 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -325,6 +325,7 @@ class DOMTokenList(MutableSequence):
         Returns:
             bool: Returns True if `token` is now present, and False otherwise.
         """
+        self._validate_token(token)
         if token in self._tokens:
             if force in (None, False):
                 self.remove(token)
-- 
2.43.0


From 363c15ae2e04d53503d3b7151d1c66311d37d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 64/68] fix: URLs with an empty path keep query and fragment

---
 svgpy/url.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index eddb6ad..456ebf6 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -580,10 +580,9 @@ class URL(object):
                     parts.append('@')
                 parts.append(host)
         parts.append(pathname)
-        if len(host) > 0 or len(pathname) > 0:
-            parts.append(self.search)
-            if not exclude_fragment:
-                parts.append(self.hash)
+        parts.append(self.search)
+        if not exclude_fragment:
+            parts.append(self.hash)
         return ''.join(parts)
 
 
-- 
2.43.0


From 532d97ea1c9dc5d6b7c4ed014df51ce246328563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:45 +0000
Subject: [PATCH 65/68] fix: an empty transform list leaves shapes where they
 are

---
 svgpy/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 6ebb67a..5350d46 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -402,7 +402,7 @@ class SVGGraphicsElement(SVGElement):
                     bbox |= child.get_bbox(options, _depth)
             if _depth > 1:
                 transform_list = self.transform  # type: SVGTransformList
-                if transform_list is not None:
+                if transform_list is not None and len(transform_list) > 0:
                     matrix = transform_list.matrix
                     bbox.transform_self(matrix)
         else:
@@ -460,7 +460,7 @@ class SVGGraphicsElement(SVGElement):
         if len(path_data) == 0:
             return path_data
         transform_list = self.transform  # type: SVGTransformList
-        if transform_list is not None:
+        if transform_list is not None and len(transform_list) > 0:
             matrix = transform_list.matrix
             path_data = PathParser.transform(path_data, matrix)
         return path_data
-- 
2.43.0


From 5d03aba0df87d11fbf2c3fdf1ffb1a0fc24040d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 66/68] fix: a closepath followed directly by another command
 is not lost

---
 svgpy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index f21afbf..44d2167 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1188,7 +1188,7 @@ class PathParser(object):
     # See https://svgwg.org/specs/paths/#PathDataCatmullRomCommand
     RE_PATH_SEGMENT_LIST = re.compile(
         r"((?P<type>[AaBbCcHhLlMmQqSsTtVvZz])\s*"
-        r"(?P<values>([^AaBbCcHhLlMmQqSsTtVvZz]|$)+))")
+        r"(?P<values>[^AaBbCcHhLlMmQqSsTtVvZz]*))")
 
     RE_NUMBER_SEQUENCE = re.compile(
         r"(?P<number>[+-]?"
-- 
2.43.0


From bfddde8a2da56664b1d7c8310837000f82b8b162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:37 +0000
Subject: [PATCH 67/68] fix: inherit on an ancestor leaves the inherited font
 size and weight

---
 svgpy/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index fde5ebc..69717d6 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -122,7 +122,7 @@ class CSSUtils(object):
                 parent = parent.getparent()
             for parent in iter(parent_sequence):
                 value = parent.get('font-size')
-                if value is None:
+                if value is None or value == 'inherit':
                     continue
                 elif value in ['larger', 'smaller']:
                     scale_factor = 1.2 if value == 'larger' else 1 / 1.2
@@ -180,7 +180,7 @@ class CSSUtils(object):
                 parent = parent.getparent()
             for parent in iter(parent_sequence):
                 value = parent.get('font-weight')
-                if value is None:
+                if value is None or value == 'inherit':
                     continue
                 elif value in ['bolder', 'lighter']:
                     xp = CSSUtils._INHERITED_WEIGHT_LIST
-- 
2.43.0


From c3830d3b199767831ff1f7426a3dae9b96a8e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:37 +0000
Subject: [PATCH 68/68] fix: a line-height without a unit multiplies the font
 size

---
 svgpy/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 69717d6..fd75d32 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -219,7 +219,7 @@ class CSSUtils(object):
                 # <percentage>
                 line_height = (h.value(SVGLength.TYPE_PERCENTAGE) / 100
                                * font_size)
-            elif h.unit == SVGLength.TYPE_NUMBER:
+            elif h.unit in [None, SVGLength.TYPE_NUMBER]:
                 # <number>
                 line_height = h.value() * font_size
             else:
-- 
2.43.0

