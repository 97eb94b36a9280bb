From 8465ddceb9eb9b04b409aea840efa72eb51c700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 01/94] fix: compare element texts and tails without str(),
 which fails on non-ASCII text

---
 lib/daeso/utils/etree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4248e84..4f98dfd 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -50,8 +50,8 @@ def equals(elem1, elem2):
     """
     # as far as I can see, _ElementInterface lacks a __eq__ method
     return ( elem1.tag == elem2.tag and
-             str(elem1.text).strip() == str(elem2.text).strip() and
-             str(elem1.tail).strip() == str(elem2.tail).strip() and
+             (elem1.text or "").strip() == (elem2.text or "").strip() and
+             (elem1.tail or "").strip() == (elem2.tail or "").strip() and
              elem1.attrib == elem2.attrib and
              len(elem1) == len(elem2) and
              all([ equals(child1, child2)
-- 
2.43.0


From 7d9c9a47e9bd9e54d5f8db26893611d83a800af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 02/94] fix: close the output file opened by etree.write

---
 lib/daeso/utils/etree.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4f98dfd..a4b83dc 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -32,14 +32,20 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     write element tree with xml header
     even when encoding is the default utf-8
     """
-    if not hasattr(file, "write"):
+    opened = not hasattr(file, "write")
+    
+    if opened:
         file = open(file, "wb")
         
-    if pprint:
-        indent(etree.getroot())
-        
-    file.write('<?xml version="1.0" encoding="utf-8"?>\n')
-    etree.write(file, "utf-8")
+    try:
+        if pprint:
+            indent(etree.getroot())
+            
+        file.write('<?xml version="1.0" encoding="utf-8"?>\n')
+        etree.write(file, "utf-8")
+    finally:
+        if opened:
+            file.close()
     
  
 def equals(elem1, elem2):
-- 
2.43.0


From 0dfa26a1c77f6aa14d1d6e6a6d44cec0b83d739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 03/94] fix: graphbanks whose files do not exist can be
 compared

---
 lib/daeso/gb/graphbank.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index 90dbf96..5247a65 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -88,8 +88,14 @@ class GraphBank(object):
         reasons of simplicity and efficiency no attempt is made to analyse
         their contents.)
         """
-        return ( self._file_path == other._file_path or
-                 os.path.samefile(self._file_path, other._file_path))
+        if self._file_path == other._file_path:
+            return True
+        
+        try:
+            return os.path.samefile(self._file_path, other._file_path)
+        except OSError:
+            # different paths of which at least one does not exist
+            return False
     
     
     def __ne__(self, other):
-- 
2.43.0


From 828b8370dd01e819a402fca46031ffe303a0ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 04/94] fix: != on pairs, graph pairs and corpora is the
 negation of ==

---
 lib/daeso/pair.py          | 4 ++++
 lib/daeso/pgc/corpus.py    | 2 +-
 lib/daeso/pgc/graphpair.py | 7 +++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pair.py b/lib/daeso/pair.py
index 3003ce0..e0909c0 100644
--- a/lib/daeso/pair.py
+++ b/lib/daeso/pair.py
@@ -44,6 +44,10 @@ class Pair(object):
                      self.target == other.target )
         
         
+    def __ne__(self, other):
+        return not self == other
+        
+        
     def __repr__(self):
         return 'Pair(source={pair.source!r}, target={pair.target!r})'.format(
             pair=self) 
diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index b7a9896..4230a50 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -350,7 +350,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__ne__(other) <==> corpsu != other
         """
-        return not self.__eq__(self, other)
+        return not self == other
     
       
     def __repr__(self):
diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index db5ccab..fa47d12 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -106,6 +106,13 @@ class GraphPairBase(object):
                          self._meta_data_equal(other) )
         
         
+    def __ne__(self, other):
+        """
+        self.__ne__(self, other) <==> self != other
+        """
+        return not self == other
+        
+        
     def __deepcopy__(self, memo_dict):
         """
         Implements the copy protocol for copy.deepcopy(graph_pair), which only
-- 
2.43.0


From ac383821fd4b68bb8ae43d15f7afa41798a7f89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 05/94] fix: keep meta-data elements which have text or
 attributes but no subelements

---
 lib/daeso/pgc/corpus.py    | 8 +++++---
 lib/daeso/pgc/graphpair.py | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 4230a50..0ac3338 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -1116,7 +1116,8 @@ class PGCGenerator(object):
     def _gen_pg_corpus(self, pg_corpus, out_dir, abs_path):
         root_elem = et.Element("parallel_graph_corpus")
         
-        if pg_corpus._meta_data:
+        # beware that an Element without subelements counts as false
+        if pg_corpus._meta_data is not None:
             root_elem.append(pg_corpus._meta_data)
         
         graphbanks_elem = et.SubElement(root_elem, "graphbanks")
@@ -1157,8 +1158,9 @@ class PGCGenerator(object):
                 from_graph_id=graph_pair._graphs.source.id,
                 to_graph_id=graph_pair._graphs.target.id)
             
-            if graph_pair._meta_data:
-                graph_pair_elem.append(graph_pair._meta_data)
+            meta_data = graph_pair._meta_data
+            if len(meta_data) or meta_data.attrib or meta_data.text:
+                graph_pair_elem.append(meta_data)
             
             self._gen_node_pairs(graph_pair_elem, graph_pair)
                 
diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index fa47d12..6ce02fa 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -75,7 +75,10 @@ class GraphPairBase(object):
         # references to them. Therefore graphs are automatically destroyed if
         # they are no longer part of any graph pair.
         self._graphs = graphs
-        self._meta_data = meta_data or et.Element("graph_meta_data")
+        # beware that an Element without subelements counts as false
+        if meta_data is None:
+            meta_data = et.Element("graph_meta_data")
+        self._meta_data = meta_data
         
         
     def __eq__(self, other):
-- 
2.43.0


From 9a6209521d8c93b46ebb3f6f4669c49fdbe44e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 06/94] fix: compare corpora of which only one has meta-data

---
 lib/daeso/pgc/corpus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 0ac3338..b941030 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -679,6 +679,8 @@ class ParallelGraphCorpus(list):
         if self._meta_data is other._meta_data:
             # both None or same object 
             return True
+        elif self._meta_data is None or other._meta_data is None:
+            return False
         else: 
             return equals(self._meta_data, other._meta_data)
 
-- 
2.43.0


From aa26ff4c31b960c2c9452d497ad890c05b82f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 07/94] fix: corpus insert, pop, index and n * corpus work as
 documented

---
 lib/daeso/pgc/corpus.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index b941030..deea986 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -374,7 +374,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__rmul__(n) <==> n * corpus
         """
-        return self.__mul__()
+        return self.__mul__(n)
          
     
     def __setitem__(self, index, value):
@@ -489,16 +489,16 @@ class ParallelGraphCorpus(list):
         return self._relations
     
     
-    def index(self, graph_pair):
+    def index(self, graph_pair, *args):
         """
         corpus.index(graph_pair, [start, [stop]]) -> integer -- 
         return first index of graph_pair.
         Raises ValueError if the graph_pair is not present.
         """
-        return list.index(self, graph_pair)
+        return list.index(self, graph_pair, *args)
     
           
-    def insert(self, graph_pair):
+    def insert(self, index, graph_pair):
         """
         corpus.insert(index, graph_pair) -- insert graph_pair before index
         
@@ -509,7 +509,7 @@ class ParallelGraphCorpus(list):
         if not isinstance(graph_pair, GraphPair):
             raise TypeError("only GraphPair instances are allowed")
         
-        list.insert(self, i, graph_pair)
+        list.insert(self, index, graph_pair)
     
     
     def read(self, inf, graph_loading=LOAD_SPARSE, relax_gb_paths=False):
@@ -542,7 +542,7 @@ class ParallelGraphCorpus(list):
                      relax_gb_paths=relax_gb_paths)
 
           
-    def pop(self, index=None):
+    def pop(self, index=-1):
         """
         corpus.pop([index]) -> GraphPair -- 
         remove and return graph pair at index (default last)
@@ -550,7 +550,7 @@ class ParallelGraphCorpus(list):
         Raises IndexError if corpus is empty or index is out of range.
         """
         # redundant graphbanks are automatically garbage collected
-        list.pop(self, index)
+        return list.pop(self, index)
     
     
     def purge(self, graph_pair=None):
-- 
2.43.0


From 80ca50832d6ebea6d110c5155359f0aec82ec3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 08/94] fix: setting the relations of a corpus leaves the list
 of the caller alone

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index deea986..8e90c42 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -429,8 +429,8 @@ class ParallelGraphCorpus(list):
 
         
     def set_relations(self, relations=None):
-        self._relations = relations or []
-        self._relations.sort()
+        # a sorted copy, so that the list of the caller is left alone
+        self._relations = sorted(relations or [])
 
     
     def append(self, graph_pair):
-- 
2.43.0


From 7cccead64ebdc4cd4f5aba244c813a6169467502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 09/94] fix: elements inside user-defined meta-data are not
 taken for corpus elements

---
 lib/daeso/pgc/corpus.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 8e90c42..f7d7d9b 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -752,6 +752,7 @@ class PGCParser(object):
     
     def __init__(self):
         self.in_meta_data=False
+        self.meta_data_elem = None
         self.graph_pair = None
         self.default_format = None
         self.relations = []
@@ -805,15 +806,19 @@ class PGCParser(object):
         # use ElementTree's iterparse rather than expat, because we want to
         # store the meta-data as an Element
         for event, elem in et.iterparse(inf, ("start", "end")):
+            # user-defined meta-data may contain any element,
+            # including those which have a meaning outside of meta-data
+            if self.in_meta_data and elem is not self.meta_data_elem:
+                continue
+            
             if event == "start":
                 try:
                     # search handler only
                     handler = self.start_handlers[elem.tag]
                 except KeyError:
-                    if not self.in_meta_data:
-                        warnings.warn(
-                            "Encountered illegal element <{0}>".format(elem.tag),
-                            DaesoWarning)
+                    warnings.warn(
+                        "Encountered illegal element <{0}>".format(elem.tag),
+                        DaesoWarning)
                     continue
             else:
                 try:
@@ -851,6 +856,7 @@ class PGCParser(object):
 
     def handle_meta_data_elem_start(self, elem):
         self.in_meta_data = True
+        self.meta_data_elem = elem
 
         
     def handle_graphbanks_elem_start(self, elem):
-- 
2.43.0


From b60f2529e205b096fbd8a4e40058fabe8265a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 10/94] fix: read the root of GraphML graphs from their root
 attribute

---
 lib/daeso/gb/graphml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 792d3c5..0cb3730 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -161,7 +161,7 @@ class GraphmlParser(XmlGraphbankParser):
             
             # set the root node, defined as a graph attribute like 
             # <data key="root">n0</data>
-            self._graph.root = self._graph.graph.get("graph")
+            self._graph.root = self._graph.graph.get("root")
             
             self._graph = None
             self._comp_attrs = None
-- 
2.43.0


From 72b04c987924d0967bddf6b615e28ad5a6df7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 11/94] fix: purging a graph pair without alignments purges
 only that pair

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index f7d7d9b..b0a5236 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -568,7 +568,7 @@ class ParallelGraphCorpus(list):
         # (difference between source and target banks is irelevant)
         old2new = {}
         
-        if graph_pair:
+        if graph_pair is not None:
             to_purge = [graph_pair]
         else:
             to_purge = self
-- 
2.43.0


From f6bb15005a9cb6ad6b3237f330c54d4689016793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 12/94] fix: changing graph bank directories leaves the
 meta-data alone

---
 bin/pgc_chdir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_chdir.py b/bin/pgc_chdir.py
index 7f509bb..3a11d96 100755
--- a/bin/pgc_chdir.py
+++ b/bin/pgc_chdir.py
@@ -85,7 +85,7 @@ for fn in args.corpus:
     # because of all the overhead of reading the treebanks etc.
     tree = ElementTree(file=fn)
         
-    for file_el in tree.findall("//file"):
+    for file_el in tree.findall("graphbanks/file"):
         from_path, to_path = args.path_prefix_pair
         
         if file_el.text.startswith(from_path):
-- 
2.43.0


From 3f35a24f17d493ff4445203d2a62b2acb5254281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 13/94] fix: report a missing graph bank also if its path is
 not ASCII

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index b0a5236..2091ece 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -841,7 +841,7 @@ class PGCParser(object):
             try:
                 gb.load()
             except IOError, inst:
-                msg = 'Cannot load graphbank from "{0}" ({1})'.format(
+                msg = u'Cannot load graphbank from "{0}" ({1})'.format(
                     inst.filename,
                     inst.strerror)
                 raise DaesoError(msg)
-- 
2.43.0


From 3390f56f354f760e2ded9a9194b2024f5b88ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 14/94] fix: resolve relative graph bank paths when reading
 from a file-like object

---
 lib/daeso/pgc/corpus.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 2091ece..75d5af4 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -793,6 +793,10 @@ class PGCParser(object):
         elif isinstance(inf, file):
             # if input is a tty, dir becomes ""
             self.dir = os.path.dirname(inf.name)
+        else:
+            # other file-like objects are supposed to be in the current
+            # directory (cf. PGCGenerator._gen_graphbanks)
+            self.dir = os.getcwd()
             
         if pg_corpus is not None:
             assert isinstance(pg_corpus, ParallelGraphCorpus)
-- 
2.43.0


From f52cdbe4e79e8b222a59b91351512eaa809231be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 15/94] fix: report missing graphs and banks also if their ids
 are not ASCII

---
 lib/daeso/gb/parser.py  |  6 +++---
 lib/daeso/pgc/corpus.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 657f920..71345fa 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -88,13 +88,13 @@ class XmlGraphbankParser(object):
     
             
     def _check_for_unresolved_graphs(self, inf):
-        unresolved = [ '"{0}"'.format(id) 
+        unresolved = [ u'"{0}"'.format(id) 
                        for (id, graph) in self._id2graph.items() 
                        if graph is None ]
     
         if unresolved:
-            msg = ( "graphs with the following id's were not found"
-                    ' in graphbank file "{0}": {1}'.format(
+            msg = ( u"graphs with the following id's were not found"
+                    u' in graphbank file "{0}": {1}'.format(
                         inf.name, 
                         ", ".join(unresolved) ))
             raise DaesoError(msg)
diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 75d5af4..7c1e39e 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -1031,20 +1031,20 @@ class PGCParser(object):
     
     def _missing_source_graph_error(self, elem):
         # TODO: report line number
-        raise DaesoError('source graph with id "{0}" not found in '
-                         'source graphbank with id "{1}"'.format(
+        raise DaesoError(u'source graph with id "{0}" not found in '
+                         u'source graphbank with id "{1}"'.format(
                              elem.get("from_graph_id"),
                              elem.get("from_bank_id")))
     
     def _missing_target_graph_error(self, elem):
         # TODO: report line number
-        raise DaesoError('target graph with id "{0}" not found '
-                         'in target graphbank with id "{1}"'.format(
+        raise DaesoError(u'target graph with id "{0}" not found '
+                         u'in target graphbank with id "{1}"'.format(
                              elem.get("to_graph_id"),
                              elem.get("to_bank_id")))  
     
     def _missing_graph_bank_error(self, bank_id):
-        raise DaesoError('graphbank with id "{0}" not found'.format(
+        raise DaesoError(u'graphbank with id "{0}" not found'.format(
             bank_id))
     
     
-- 
2.43.0


From 7871da25537f84b62be776e1b95ed4a0346e0065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 16/94] fix: incremental parsing keeps its graphs and reports
 missing ones at the end

---
 lib/daeso/gb/parser.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 71345fa..7671f21 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -55,13 +55,14 @@ class XmlGraphbankParser(object):
         
     def parse_string(self, data, id2graph=None, sparse=False):
         # supports incremental parsing
-        self._id2graph = id2graph or {}
+        if id2graph is not None:
+            self._id2graph = id2graph
+        elif self._id2graph is None:
+            self._id2graph = {}
+            
         self._sparse = sparse
 
         self._parser.Parse(data, 0)
-        
-        if self._sparse:
-            self._check_for_unresolved_graphs()
             
         return self._id2graph
 
@@ -70,6 +71,9 @@ class XmlGraphbankParser(object):
         self._parser.Parse("", 1) # end of data
         del self._parser # get rid of circular references
         
+        if self._sparse:
+            self._check_for_unresolved_graphs()
+        
         
     def parse_file(self, inf, id2graph=None, sparse=False):
         if not hasattr(inf, "read"):
@@ -87,7 +91,7 @@ class XmlGraphbankParser(object):
         return self._id2graph
     
             
-    def _check_for_unresolved_graphs(self, inf):
+    def _check_for_unresolved_graphs(self, inf=None):
         unresolved = [ u'"{0}"'.format(id) 
                        for (id, graph) in self._id2graph.items() 
                        if graph is None ]
@@ -95,7 +99,7 @@ class XmlGraphbankParser(object):
         if unresolved:
             msg = ( u"graphs with the following id's were not found"
                     u' in graphbank file "{0}": {1}'.format(
-                        inf.name, 
+                        getattr(inf, "name", "?"), 
                         ", ".join(unresolved) ))
             raise DaesoError(msg)
         
-- 
2.43.0


From 813d5b50a4498f43507cd2d7fa5ab3919a8cd6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 17/94] fix: data of a GraphML graph may follow its nodes and
 edges

---
 lib/daeso/gb/graphml.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 0cb3730..025a3a3 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -144,8 +144,10 @@ class GraphmlParser(XmlGraphbankParser):
         if tag == "graph":
             self._end_graph()
         elif self._graph_wanted():
-            if tag in "node":
+            if tag == "node":
                 self._end_node()
+            elif tag == "edge":
+                self._end_edge()
             elif tag == "data":
                 self._end_data()
             elif tag == "default":
@@ -175,11 +177,13 @@ class GraphmlParser(XmlGraphbankParser):
             raise DaesoError("node must have a 'tokens' attribute")
         
         self._node = None
-        self._comp_attrs = None
+        # back in the context of the graph
+        self._comp_attrs = self._graph.graph
         
         
-    def end_edge(self):
-        self._comp_attrs = None
+    def _end_edge(self):
+        # back in the context of the graph
+        self._comp_attrs = self._graph.graph
     
      
     def _end_data(self):
-- 
2.43.0


From 07c5105f6e898b8d3811fa6bf623cd2c43e16f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 18/94] fix: default values of GraphML keys are honoured

---
 lib/daeso/gb/graphml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 025a3a3..8d9d5cb 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -119,8 +119,8 @@ class GraphmlParser(XmlGraphbankParser):
         # temporarily assign None to required arg label
         self._graph.add_node(n, label=None)
         self._comp_attrs = self._graph.node[n]
-        self._set_defaults()
         self._node = n 
+        self._set_defaults()
         
             
     def _start_edge(self, attrs):
@@ -150,8 +150,8 @@ class GraphmlParser(XmlGraphbankParser):
                 self._end_edge()
             elif tag == "data":
                 self._end_data()
-            elif tag == "default":
-                self._end_default()
+        elif tag == "default":
+            self._end_default()
                 
         self._context.pop()
         
@@ -210,7 +210,8 @@ class GraphmlParser(XmlGraphbankParser):
         
  
     def _char_data(self, data):
-        if self._graph_wanted():
+        # outside graphs, only the text of <default> elements matters
+        if self._graph_wanted() or self._context[-1] == "default":
             self._char_data_buf += data   
             
             
-- 
2.43.0


From dc6a663a7655e93997d688f525b586fd65b84e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 19/94] fix: nodes added together do not share one attribute
 dict

---
 lib/daeso/graph/ograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 8a60bd9..2a9603d 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -218,7 +218,7 @@ class ODiGraph(networkx.DiGraph):
             if n not in self.succ:
                 self.succ[n] = OrderedDict()
                 self.pred[n] = OrderedDict()
-                self.node[n] = attr
+                self.node[n] = attr.copy()
             else: # update attr even if node already exists            
                 self.node[n].update(attr)
 
-- 
2.43.0


From bc8a137d28df282370febbc73bac7a98a38f9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 20/94] fix: undefined names in graph construction and its
 errors

---
 lib/daeso/graph/daesograph.py | 2 ++
 lib/daeso/graph/ograph.py     | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index b1d9ea5..ba53c87 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -26,6 +26,8 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 import string
 
+from networkx import NetworkXError
+
 from daeso.graph.ograph import ODiGraph
 
 # TODO:
diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 2a9603d..e1874dd 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -52,6 +52,7 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 from distutils.version import LooseVersion
 import networkx
+from networkx import NetworkXError, convert
 
 if LooseVersion(networkx.__version__) < LooseVersion('1.0'):
     raise ImportError("networkx version 1.0 or later required" +
@@ -118,7 +119,7 @@ class ODiGraph(networkx.DiGraph):
 
         # attempt to load graph with data
         if data is not None:
-            convert.from_whatever(data,create_using=self)
+            convert.to_networkx_graph(data,create_using=self)
         # load graph attributes (must be after convert)
         self.graph.update(attr)
 
-- 
2.43.0


From 733811a9f3120258acb161f3e7b336f6a4636240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 21/94] fix: listing the non-terminals of a graph

---
 lib/daeso/graph/daesograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index ba53c87..3bc6c6d 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -101,7 +101,7 @@ class DaesoGraph(ODiGraph):
     
     def non_terminals_iter(self):
         return ( node for node in self
-                 if self.is_non_terminal(node) )
+                 if self.node_is_non_terminal(node) )
     
     
     def non_terminals(self):
-- 
2.43.0


From 680aa73eeae8840051ad99a9020472221cfc347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 22/94] fix: terminal yield of nodes which count as false

---
 lib/daeso/graph/daesograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index 3bc6c6d..2f6aa5f 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -149,7 +149,7 @@ class DaesoGraph(ODiGraph):
         terminal nodes dominated by non-terminal node n (in pre-order)
         """
         # should work for both trees and graphs
-        queue = [n or self.root] # LIFO queue
+        queue = [self.root if n is None else n] # LIFO queue
         seen = {} # nodes seen      
         terminals = []  # list of terminal nodes in a DFS preorder
         
-- 
2.43.0


From 092d31703157dda6b131fbd5a55d64f689e8ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 23/94] fix: roots_aligned looks at the root of the target
 graph

---
 lib/daeso/pgc/graphpair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index 6ce02fa..7ff392d 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -331,7 +331,7 @@ class GraphMapping(GraphPairBase, DiGraph):
         """
         return self.has_edge(
             self._graphs.source.root ,
-            self._graphs.source.root)
+            self._graphs.target.root)
     
     
     def dump_alignments(self):
-- 
2.43.0


From c1d12405b8bf1ec9f516272d1b315d0c956e71dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 24/94] fix: str() of a graph pair

---
 lib/daeso/pgc/graphpair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index 7ff392d..f5033b5 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -279,7 +279,7 @@ class GraphMapping(GraphPairBase, DiGraph):
             self.__class__.__name__,
             self._banks,
             self._graphs,
-            list.__str__(self),
+            self.alignments(),
             self._meta_data)
 
     
-- 
2.43.0


From 893aea45e1797733a5b543a8b2e5f5c6a81dee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 25/94] fix: report an unknown graph bank format

---
 lib/daeso/gb/graphbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index 5247a65..d0623b7 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -168,9 +168,9 @@ class GraphBank(object):
         try:
             parser_module_name, parser_class_name = getattr(daeso.gb.register, 
                                                             format.lower())
-        except KeyError:
+        except AttributeError:
             # TODO: use own error class
-            AssertionError("no parser available for graphbank in '%s' format" % format)
+            raise AssertionError("no parser available for graphbank in '%s' format" % format)
             
         try:
             parser_module = __import__(parser_module_name, 
-- 
2.43.0


From 1074d393df80b06a972a8f89c2350ef8ec21e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 26/94] fix: error message for a graph stub of another pair

---
 lib/daeso/gb/graphstub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphstub.py b/lib/daeso/gb/graphstub.py
index f3a1da5..6acb177 100644
--- a/lib/daeso/gb/graphstub.py
+++ b/lib/daeso/gb/graphstub.py
@@ -92,7 +92,7 @@ class GraphStub(object):
             elif graph_pair._graphs.target is self:
                 graph_pair._graphs.target = graph
             else:
-                raise ValueError( "{0} is no client of {}".format(
+                raise ValueError( "{0} is no client of {1}".format(
                     graph_pair, self))
         
         # If any of the graph pairs is deleted while for some reason the graph
-- 
2.43.0


From 7753ed50d3ffbc70299658e3fc6857e570ac2669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 27/94] fix: close the file to which an evaluation is written

---
 lib/daeso/pgc/evaluate.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/evaluate.py b/lib/daeso/pgc/evaluate.py
index 7b3c519..53f56cd 100644
--- a/lib/daeso/pgc/evaluate.py
+++ b/lib/daeso/pgc/evaluate.py
@@ -305,7 +305,14 @@ class AlignEval(dict):
         write full evaluation 
 	"""
         if isinstance(out, basestring):
-            out = open(out, "w")
+            outf = open(out, "w")
+            
+            try:
+                self.write(outf)
+            finally:
+                outf.close()
+                
+            return
             
         self.write_alignment_only(out)
         self.write_alignment_per_relation(out)
-- 
2.43.0


From a185d8a07c4ea625b4e8a6ff72133663b9700be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 28/94] fix: corpus diff limited to words

---
 lib/daeso/pgc/diff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index cf2d5b5..461b82e 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -77,7 +77,7 @@ def pgc_diff(corpus1, corpus2,
         
         for nodes, rel1 in graph_pair1.alignments_iter(relations=relations):
             if ( words_only and
-                 graphs.source.node_node_is_non_terminal(nodes.source) and
+                 graphs.source.node_is_non_terminal(nodes.source) and
                  graphs.target.node_is_non_terminal(nodes.target) ):
                 continue
             
@@ -92,8 +92,8 @@ def pgc_diff(corpus1, corpus2,
             
         for nodes, rel2 in graph_pair2.alignments_iter(relations=relations):
             if ( words_only and
-                 ( graphs.source.node_is_terminal(nodes.source) or
-                   graphs.target.node_is_terminal(nodes.target) )):
+                 graphs.source.node_is_non_terminal(nodes.source) and
+                 graphs.target.node_is_non_terminal(nodes.target) ):
                 continue
             
             if not graph_pair1.get_align(nodes):
-- 
2.43.0


From dd8f655b7cd9da00914fba545d5d64f4598e6611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 29/94] fix: corpus diff prints the headers of the corpora and
 graph pairs

---
 lib/daeso/pgc/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 461b82e..a8e32e8 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -59,7 +59,7 @@ def pgc_diff(corpus1, corpus2,
     pair_count = 0
     
     header("%s corpus: %s\n%s corpus: %s" % (annot1, corpus_name1, annot2,
-                                             corpus_name2), width=120, char="#")
+                                             corpus_name2), out, width=120, char="#")
     
     for graph_pair1, graph_pair2 in zip(corpus1, corpus2):
         # assume that the corpora have the same graph pairs in the same order,
@@ -103,7 +103,7 @@ def pgc_diff(corpus1, corpus2,
         #if not ( ident and rel_diff and uniq1 and uniq2 and show_comments ):
         #    continue
             
-        header("Graph pair %d" % pair_count, width=120, char="=")
+        header("Graph pair %d" % pair_count, out, width=120, char="=")
         
         print >>out, graphs.source.get_graph_token_string().encode("utf-8"), "\n"
         print >>out, graphs.target.get_graph_token_string().encode("utf-8"), "\n"
-- 
2.43.0


From 27d7314acfcff8df89faffcff7f27f12619a1c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 30/94] fix: corpus diff on graphs in other formats than Alpino

---
 lib/daeso/pgc/diff.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index a8e32e8..2a6f57f 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -131,7 +131,11 @@ def pgc_diff(corpus1, corpus2,
         
         
 def cmp_nodes(nodes1, nodes2):
-    return cmp(int(nodes1.source), int(nodes2.source))
+    try:
+        return cmp(int(nodes1.source), int(nodes2.source))
+    except ValueError:
+        # node identifiers are not always numbers
+        return cmp(nodes1.source, nodes2.source)
 
 
 def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
@@ -150,16 +154,16 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
             s = '(%s) %s [%s:%s]: "%s"' % (                
                 nodes.source,
                 graphs.source.node[nodes.source]["label"].encode("utf-8"),
-                graphs.source.node[nodes.source]["begin"],
-                graphs.source.node[nodes.source]["end"],
+                graphs.source.node[nodes.source].get("begin", ""),
+                graphs.source.node[nodes.source].get("end", ""),
                 graphs.source.get_node_token_string(nodes.source))
             print >>out, s.encode("utf-8")
             print >>out, "<<<", rel1.upper(), "/", rel2.upper(), ">>>"
             s = '(%s) %s [%s:%s]: "%s"\n' % (
                 nodes.target,
                 graphs.target.node[nodes.target]["label"],
-                graphs.target.node[nodes.target]["begin"],
-                graphs.target.node[nodes.target]["end"],
+                graphs.target.node[nodes.target].get("begin", ""),
+                graphs.target.node[nodes.target].get("end", ""),
                 graphs.target.get_node_token_string(nodes.target))
             print >>out, s.encode("utf-8")
             
-- 
2.43.0


From 8efa7605f062f4d6381a9a5fb9b3fbe477be3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 31/94] fix: corpus diff on labels and relations which are not
 ASCII

---
 lib/daeso/pgc/diff.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 2a6f57f..244daac 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -145,20 +145,21 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
         
         for nodes in nodes_list:        
             align_count += 1
-            rel1 = str(graph_pair1.get_align(nodes))
-            rel2 = str(graph_pair2.get_align(nodes))
+            rel1 = unicode(graph_pair1.get_align(nodes))
+            rel2 = unicode(graph_pair2.get_align(nodes))
             
             # tricky because of implicit coercions, 
             # see "Formatting Markers" http://www.python.org/dev/peps/pep-0100/
             print >>out, "#%d:" % align_count 
             s = '(%s) %s [%s:%s]: "%s"' % (                
                 nodes.source,
-                graphs.source.node[nodes.source]["label"].encode("utf-8"),
+                graphs.source.node[nodes.source]["label"],
                 graphs.source.node[nodes.source].get("begin", ""),
                 graphs.source.node[nodes.source].get("end", ""),
                 graphs.source.get_node_token_string(nodes.source))
             print >>out, s.encode("utf-8")
-            print >>out, "<<<", rel1.upper(), "/", rel2.upper(), ">>>"
+            s = "<<< %s / %s >>>" % (rel1.upper(), rel2.upper())
+            print >>out, s.encode("utf-8")
             s = '(%s) %s [%s:%s]: "%s"\n' % (
                 nodes.target,
                 graphs.target.node[nodes.target]["label"],
-- 
2.43.0


From a8382163bec349821efd6133d69375b8f4098ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 32/94] fix: corpus diff with empty comments

---
 lib/daeso/pgc/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 244daac..b3ffb0f 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -178,6 +178,6 @@ def print_comments(graph_pair, annot, out, encoding="utf-8"):
     except AttributeError:
         return
     
-    if comment.strip():
+    if comment and comment.strip():
         header("Comments by " + annot, out, char="-")
         print >>out, comment.encode(encoding), "\n"
-- 
2.43.0


From 36558b6a8ec88250a0578ad8c88388d7c3997bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 33/94] fix: corpus diff misses differences if only the second
 relation is selected

---
 lib/daeso/pgc/diff.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index b3ffb0f..e4b0d4b 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -48,7 +48,9 @@ def pgc_diff(corpus1, corpus2,
     assert len(corpus1) == len(corpus2)
     
     if not relations:
-        relations = corpus1.get_relations()
+        relations = list(corpus1.get_relations())
+        relations += [ rel for rel in corpus2.get_relations()
+                       if rel not in relations ]
     
     # counter for numbering the alignments when printing;
     # may be less than the actual number of alignments when identical alignments
@@ -96,8 +98,13 @@ def pgc_diff(corpus1, corpus2,
                  graphs.target.node_is_non_terminal(nodes.target) ):
                 continue
             
-            if not graph_pair1.get_align(nodes):
+            rel1 = graph_pair1.get_align(nodes)
+            
+            if not rel1:
                 uniq2.append(nodes)
+            elif rel1 not in relations:
+                # skipped above
+                rel_diff.append(nodes)
                     
         
         #if not ( ident and rel_diff and uniq1 and uniq2 and show_comments ):
-- 
2.43.0


From fdce17c6203748b4ef7e611046b3d02824967f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 34/94] fix: threshold option of pgc_stats.py

---
 bin/pgc_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_stats.py b/bin/pgc_stats.py
index 9f58b45..02c200c 100755
--- a/bin/pgc_stats.py
+++ b/bin/pgc_stats.py
@@ -91,7 +91,7 @@ parser.add_argument(
 
 parser.add_argument(
     "-t", "--token_diff_threshold", 
-    type="int", 
+    type=int, 
     metavar="THRESHOLD",
     default=0, dest="threshold", 
     help="exclude graph pairs with a token difference below the threshold")
-- 
2.43.0


From 842bb85607d4a858986077e26a9bdc29dc21ab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 35/94] fix: read statistics tables with spaces in the file
 name

---
 lib/daeso/stats/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 7923f93..813e0cf 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -172,7 +172,8 @@ class StatsTable(OrderedDict):
                     continue            
             elif sep_count == 1:
                 # read body
-                value_row = l.strip().split()
+                # the first column may contain spaces
+                value_row = l.strip().rsplit(None, len(self) - 1)
                 
                 for col, val in zip(self.values(), value_row):
                     if col.type == "string":
-- 
2.43.0


From c1caca938c0aebdb29b2f83464fc8dea8d6401f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 36/94] fix: close statistics tables before they are read again

---
 lib/daeso/stats/corpus.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 141cde1..8d04150 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -170,4 +170,9 @@ def write_table(table, fn, verbose=True):
     """
     if not table.is_empty():
         if verbose: print "Writing table", fn
-        table.write(out=file(fn, "w"))
\ No newline at end of file
+        out = open(fn, "w")
+        
+        try:
+            table.write(out=out)
+        finally:
+            out.close()
-- 
2.43.0


From e3b73bc941ee31e53cea954006b19e12fa5c8c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 37/94] fix: graphs aligned once as source and once as target
 are multiple aligned

---
 lib/daeso/gb/gbstats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/gbstats.py b/lib/daeso/gb/gbstats.py
index 10b0109..cbfb92c 100644
--- a/lib/daeso/gb/gbstats.py
+++ b/lib/daeso/gb/gbstats.py
@@ -245,8 +245,8 @@ def graph_is_aligned(graph):
 def graph_is_single_aligned(graph):
     # This function can be called after daeso.pgc.pgcstats.graph_pair_stats
     # has added the "from_align" and "to_align" attributes to graphs and nodes.
-    return ( graph.graph.get("from_align") == 1 or
-             graph.graph.get("to_align") == 1 )
+    return ( graph.graph.get("from_align", 0) +
+             graph.graph.get("to_align", 0) ) == 1
     
 
 def root_aligned(graph):
-- 
2.43.0


From 8266a800b62ff6daae17cb61d9e8833227bbb620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 38/94] fix: close pickles of agreement results

---
 lib/daeso/pgc/agreement.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/agreement.py b/lib/daeso/pgc/agreement.py
index b3e34b7..8594bae 100644
--- a/lib/daeso/pgc/agreement.py
+++ b/lib/daeso/pgc/agreement.py
@@ -53,11 +53,20 @@ def run_eval(corpus_fns, annotators, pickle_fn=None, words_only=False):
     write_tables(tables)
     
     if pickle_fn:
-        pickle.dump((align_eval, tables), open(pickle_fn, "wb"))
+        _dump((align_eval, tables), pickle_fn)
         
     return align_eval, tables
 
 
+def _dump(obj, pickle_fn):
+    pickle_file = open(pickle_fn, "wb")
+    
+    try:
+        pickle.dump(obj, pickle_file)
+    finally:
+        pickle_file.close()
+
+
 def write_tables(tables):
     for rel, val in tables.items():
         print 80 * "="
@@ -94,7 +103,7 @@ def tableize(align_eval, pickle_fn=None):
             am.calculate_statistics()
             
     if pickle_fn:
-        pickle.dump(tables, open(pickle_fn, "wb"))
+        _dump(tables, pickle_fn)
         
     return tables
            
@@ -124,7 +133,7 @@ def cross_evaluate(corpus_fns, annotators=None, pickle_fn=None,
     align_eval.run_eval()
         
     if pickle_fn:
-        pickle.dump(align_eval, open(pickle_fn, "wb"))
+        _dump(align_eval, pickle_fn)
         
     return align_eval
 
-- 
2.43.0


From 38173718fad3ece00eb47876a0c40851a1913664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 39/94] fix: pgc_diff reports shared alignments twice when no
 relations are declared

---
 lib/daeso/pgc/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index e4b0d4b..bb58412 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -102,7 +102,7 @@ def pgc_diff(corpus1, corpus2,
             
             if not rel1:
                 uniq2.append(nodes)
-            elif rel1 not in relations:
+            elif relations and rel1 not in relations:
                 # skipped above
                 rel_diff.append(nodes)
                     
-- 
2.43.0


From f1ced37973554da3032b36e53fe938ed74c28e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 40/94] fix: graph bank statistics count failed parses of
 discarded graphs

---
 lib/daeso/gb/gbstats.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/daeso/gb/gbstats.py b/lib/daeso/gb/gbstats.py
index cbfb92c..811138c 100644
--- a/lib/daeso/gb/gbstats.py
+++ b/lib/daeso/gb/gbstats.py
@@ -134,17 +134,17 @@ def graph_stats(gb,
     gb_table["BANK"][i] = name
 
     for graph in gb:                                   
-        if graph.is_failed_parse():
-            if with_failed_parses:
-                gb_table["CGFP"][i] += 1
-            else:
-                continue
+        # postpone counting failed parses and unaligned roots,
+        # because the graph might be discarded for other reasons
+        found_failed_parse = graph.is_failed_parse()
         
-        if not root_aligned(graph):
-            if with_unaligned_roots:
-                gb_table["CGUR"][i] +=1
-            else:
-                continue
+        if found_failed_parse and not with_failed_parses:
+            continue
+        
+        found_unaligned_root = not root_aligned(graph)
+        
+        if found_unaligned_root and not with_unaligned_roots:
+            continue
             
         if threshold:
             # FIXME
@@ -163,6 +163,12 @@ def graph_stats(gb,
             else:
                 gb_table["CGMA"][i] += 1
         
+        if found_failed_parse:
+            gb_table["CGFP"][i] += 1
+            
+        if found_unaligned_root:
+            gb_table["CGUR"][i] += 1
+        
         gb_table["CG"][i] += 1
         gb_table["CT"][i] += count_tokens(graph, with_punc)
         
-- 
2.43.0


From 46e422bbc5cc16b214af600812cc1814be98fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 41/94] fix: search for document file next to the parallel text
 corpus used the name of the corpus

---
 lib/daeso/ptc/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 3296cdb..c7f9e88 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -95,7 +95,7 @@ class HitaextDoc(ElementTree):
                 # relative path
                 join(dirname(self.filename), fn),
                 # ignore path, just search in same dir as hitaext document
-                join(dirname(self.filename), basename(self.filename)) 
+                join(dirname(self.filename), basename(fn)) 
             ):
                 if exists(p):
                     return p
-- 
2.43.0


From 553a7035382e78fed7763039b1a6628253600a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 42/94] fix: file written by HitaextDoc.write is not closed

---
 lib/daeso/ptc/document.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index c7f9e88..703702e 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -175,9 +175,17 @@ class HitaextDoc(ElementTree):
         # ElementTree.write does not write the XML header
         # if the encoding is utf-8
         if not hasattr(file, "write"):
-            file = open(file, "w")
-        print >>file, '<?xml version="1.0" encoding="utf-8"?>'
-        ElementTree.write(self, file, "utf-8")
+            outf = open(file, "w")
+        else:
+            outf = file
+            
+        try:
+            print >>outf, '<?xml version="1.0" encoding="utf-8"?>'
+            ElementTree.write(self, outf, "utf-8")
+        finally:
+            if outf is not file:
+                # make sure everything is actually written
+                outf.close()
     
     #===============================================================================
     # document tree methods
-- 
2.43.0


From f0f559d5b4c1106961a0d8ebf3fd215beaa9e39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 43/94] fix: ptc_n_to_id.py takes the list of corpora as a
 single file

---
 bin/ptc_n_to_id.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/bin/ptc_n_to_id.py b/bin/ptc_n_to_id.py
index ef44119..e33683b 100644
--- a/bin/ptc_n_to_id.py
+++ b/bin/ptc_n_to_id.py
@@ -53,25 +53,26 @@ parser.add_argument(
 
 args = parser.parse_args()
 
-if args.verbose:
-    print >>stderr, "Reading corpus from", args.corpus
+for fn in args.corpus:
+    if args.verbose:
+        print >>stderr, "Reading corpus from", fn
+        
+    corpus = HitaextDoc(file=fn)
     
-corpus = HitaextDoc(file=args.corpus)
-
-from_tree = corpus.get_doc_tree("from")
-to_tree = corpus.get_doc_tree("to")
-
-from_tree.update()
-to_tree.update()
-
-corpus.inject_alignments(from_tree, to_tree)
-
-corpus.alignment.set("method", "id")
-
-corpus.extract_alignments(from_tree, to_tree)
-
-if args.verbose:
-    print >>stderr, "Writing corpus to", args.corpus
+    from_tree = corpus.get_doc_tree("from")
+    to_tree = corpus.get_doc_tree("to")
+    
+    from_tree.update()
+    to_tree.update()
+    
+    corpus.inject_alignments(from_tree, to_tree)
+    
+    corpus.alignment.set("method", "id")
+    
+    corpus.extract_alignments(from_tree, to_tree)
     
-corpus.write(args.corpus)
+    if args.verbose:
+        print >>stderr, "Writing corpus to", fn
+        
+    corpus.write(fn)
 
-- 
2.43.0


From edd8603a2a5ee020b770578517d88b4eb9bd9267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 44/94] fix: parallel text corpus destroyed when writing id
 alignments of elements without id

---
 lib/daeso/ptc/document.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 703702e..6b4f390 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -353,6 +353,12 @@ class HitaextDoc(ElementTree):
         
         for fromElem in from_tree.getiterator():
             for toElem in fromElem.get("_alignments", []):
+                # an alignment without id's cannot be written
+                for elem in fromElem, toElem:
+                    if elem.get("id") is None:
+                        raise AssertionError("Aligned element without id: %s" %
+                                             elem.tag)
+                    
                 self.add_id_alignment(fromElem.tag, fromElem.get("id"), 
                                       toElem.tag, toElem.get("id"))
         
-- 
2.43.0


From 46aa3ea21c0d319d8a0d561b6183b31691791b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 45/94] fix: ignored elements without children are not marked,
 marks survive an update

---
 lib/daeso/ptc/ielemtree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/ielemtree.py b/lib/daeso/ptc/ielemtree.py
index 47fee79..36cc168 100644
--- a/lib/daeso/ptc/ielemtree.py
+++ b/lib/daeso/ptc/ielemtree.py
@@ -97,9 +97,14 @@ class IndexElemTree(ElementTree):
         # it may be better to create this attribute on the fly
         elem.set("_alignments", [])
         
+        # remove what is left from a previous update
+        for name in ("_ignore", "_start", "_end"):
+            elem.attrib.pop(name, None)
+        
         if ignore or elem.tag in self.ignoreTags: 
+            elem.set("_ignore", "true")
+            
             for child in elem.getchildren():
-                elem.set("_ignore", "true")
                 self.index_elem(child, ignore=True)
                 
             text = ""
-- 
2.43.0


From 6fcea74bd9875eb01b4db2c247e66dbf487940d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 46/94] fix: evaluation of text alignments without id's counts
 at most one alignment

---
 lib/daeso/ptc/evaluate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/ptc/evaluate.py b/lib/daeso/ptc/evaluate.py
index 0e5c4f2..2f4744e 100644
--- a/lib/daeso/ptc/evaluate.py
+++ b/lib/daeso/ptc/evaluate.py
@@ -92,8 +92,8 @@ def get_alignment(corpus, tag):
         if ( link_elem.get('from_tag') == tag and 
              link_elem.get('to_tag') == tag ):
             alignments.add((
-                link_elem.get('from_id'),
-                link_elem.get('to_id')))
+                link_elem.get('from_id', link_elem.get('from_n')),
+                link_elem.get('to_id', link_elem.get('to_n'))))
             
     return alignments
 
-- 
2.43.0


From 60779d2d813e2d3fd66553bc35bc16ee1f401d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 47/94] fix: text alignment differences between elements
 without id are not reported

---
 lib/daeso/ptc/diff.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/ptc/diff.py b/lib/daeso/ptc/diff.py
index d668866..d277332 100644
--- a/lib/daeso/ptc/diff.py
+++ b/lib/daeso/ptc/diff.py
@@ -50,13 +50,13 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
     count = 0
     
     for true_from_elem, pred_from_elem in zip(
-        true_from_tree.tagCountTable[tag],
-        pred_from_tree.tagCountTable[tag]):
+        true_from_tree.tagCountTable.get(tag, []),
+        pred_from_tree.tagCountTable.get(tag, [])):
         
         for true_to_elem in true_from_elem.get("_alignments"):
 
             for pred_to_elem in pred_from_elem.get("_alignments"):
-                if true_to_elem.get("id") == pred_to_elem.get("id"):
+                if is_same_elem(true_to_elem, pred_to_elem):
                     # same alignment
                     break
             else:
@@ -72,7 +72,7 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
         for pred_to_elem in pred_from_elem.get("_alignments"):
 
             for true_to_elem in true_from_elem.get("_alignments"):
-                if true_to_elem.get("id") == pred_to_elem.get("id"):
+                if is_same_elem(true_to_elem, pred_to_elem):
                     # same alignment
                     break
             else:
@@ -87,6 +87,15 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
                 
     
     
+def is_same_elem(elem1, elem2):
+    """
+    test if elements from two readings of the same document are the same
+    """
+    # elements do not always have an id
+    return ( elem1.tag == elem2.tag and 
+             elem1.get("_n") == elem2.get("_n") )
+    
+    
 def read_corpus(corpus): 
     if not isinstance(corpus, HitaextDoc):
         corpus = HitaextDoc(file=corpus)
-- 
2.43.0


From 51dff4e13358c4f96062c1d8f2210e629c7e9b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 48/94] fix: punctuation is not removed from preprocessed word
 n-grams

---
 lib/daeso/ptc/textalign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index a53e686..27d61be 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -322,7 +322,7 @@ def preproc_word_n_gram_factory(n):
         # but does not return the tokens lower cased!!!
         text = [ token.lower()
                  for token in text.split()
-                 if text not in string.punctuation ]
+                 if token not in string.punctuation ]
         return n_gram_strings(text, n)
     
     func.__name__ = "preproc_word_%d_gram" % n
-- 
2.43.0


From 81c69c6c9739b20b0284562c174e7c212f5c9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 49/94] fix: preprocessed character n-grams are n-grams of
 words

---
 lib/daeso/ptc/textalign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index 27d61be..0fd0535 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -349,7 +349,7 @@ def preproc_char_n_gram_factory(n):
         text = remove_stopwords(text.lower().split(), 
                                 ignore_case=True, 
                                 remove_punc=True)
-        return n_gram_strings(list(text), n)
+        return n_gram_strings(list(" ".join(text)), n)
     
     func.__name__ = "preproc_char_%d_gram" % n
     return func
-- 
2.43.0


From 89874567fda8ab8c6ef38b00bb3a682793b1d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 50/94] fix: text alignment without scope replaces the
 alignments of the root

---
 lib/daeso/ptc/textalign.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index 0fd0535..231f01f 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -112,11 +112,12 @@ class TextAlignerBase(object):
             scope_tags = self.scope_tags
         else:
             # when scope is not specified, assume that scope tag is root tag,
-            # and that roots are aligned
-            source_root = doc_trees.source.getroot()
-            target_root = doc_trees.target.getroot()
-            scope_tags = Pair([source_root.tag], [target_root.tag])
-            source_root.set("_alignments", [target_root])
+            # and that roots are aligned (without adding this alignment to the
+            # corpus)
+            scope_tags = Pair([], [])
+            self._align_within_scope(doc_trees,
+                                     Pair(doc_trees.source.getroot(),
+                                          doc_trees.target.getroot()))
             
         # TODO: semantics not entirely clear. 
         # - what happens if scope tags are embedded?
-- 
2.43.0


From 65f394c4a26a73ae4034ba5f6b6f5d6644ee7117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 51/94] fix: ptc_chdir.py fails on file names of a single
 character

---
 bin/ptc_chdir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/ptc_chdir.py b/bin/ptc_chdir.py
index 27f7565..e27ea0f 100755
--- a/bin/ptc_chdir.py
+++ b/bin/ptc_chdir.py
@@ -81,7 +81,7 @@ for fn in args.corpus:
             print >>stderr, "Current %s path is %s" %  (side, path)
         
         # a heuristic to deal with windows paths        
-        if path[0] in uppercase and path[1] == ":":
+        if path[:1] in uppercase and path[1:2] == ":":
             # strip drive letter
             path = path[2:]
         path = path.replace("\\", "/")
-- 
2.43.0


From b2661207827a35b6381ac553658a7dda9e41b794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 52/94] fix: normalized idf weights of a collection with a
 single document or none

---
 lib/daeso/string/tf_idf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/tf_idf.py b/lib/daeso/string/tf_idf.py
index 40cd63d..1f4984d 100644
--- a/lib/daeso/string/tf_idf.py
+++ b/lib/daeso/string/tf_idf.py
@@ -88,7 +88,8 @@ TODO
         # note that the minimal value of idf is zero (term occurs in all docs)
         # and its maximum value is log(docs_count/1) = log(docs_count),
         # so we can normalize idf by simply dividing by logs(docs_count) 
-        norm = math.log(docs_count)
+        # (with less than two documents all weights are zero)
+        norm = math.log(docs_count) if docs_count > 1 else 1
     else:
         norm = 1
     
@@ -155,7 +156,8 @@ def tf_idf(terms_per_doc, normalized=False, indicator=False):
         # Note that the minimal value of idf is zero (term occurs in all docs)
         # and its maximum value is log(docs_count/1) = log(docs_count).
         # so we can normalize idf by simply dividing by logs(docs_count) 
-        norm = math.log(docs_count)
+        # (with less than two documents all weights are zero)
+        norm = math.log(docs_count) if docs_count > 1 else 1
     else:
         norm = 1
         
-- 
2.43.0


From 927afaf7e2c8e84995d88e3ea134cc3562243373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 53/94] fix: global alignment with gap costs that depend on the
 element

---
 lib/daeso/string/needleman_wunsch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/needleman_wunsch.py b/lib/daeso/string/needleman_wunsch.py
index 2cac879..081022c 100644
--- a/lib/daeso/string/needleman_wunsch.py
+++ b/lib/daeso/string/needleman_wunsch.py
@@ -78,10 +78,10 @@ def needleman_wunsch(seq1, seq2, sim_score, gap_cost):
     scores = {(0,0): (0, "T")}
     
     for i in range(1, len(seq1) + 1):
-        scores[i, 0] = (gap_cost(seq1[i-1]) * i, "U")
+        scores[i, 0] = (scores[i-1, 0][0] + gap_cost(seq1[i-1]), "U")
     
     for j in range(1, len(seq2) + 1):
-        scores[0, j] = (gap_cost(seq2[j-1]) * j, "L")
+        scores[0, j] = (scores[0, j-1][0] + gap_cost(seq2[j-1]), "L")
     
     for i in range(1, len(seq1) + 1):
         for j in range(1, len(seq2) + 1):
-- 
2.43.0


From 9b944064dd5ce213189ba5bd6ae950be9c88a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 54/94] fix: local alignment of sequences which have nothing in
 common

---
 lib/daeso/string/smith_waterman.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/daeso/string/smith_waterman.py b/lib/daeso/string/smith_waterman.py
index f26ce9e..3002dcd 100644
--- a/lib/daeso/string/smith_waterman.py
+++ b/lib/daeso/string/smith_waterman.py
@@ -100,6 +100,11 @@ def smith_waterman(seq1, seq2, sim_score, gap_cost):
             
     # find highest score
     positives = [(score, pair) for (pair, score) in scores.items() if score[0] > 0]
+    
+    if not positives:
+        # nothing to align
+        return scores, []
+    
     positives.sort()
     i,j = positives[-1][1]
     
-- 
2.43.0


From 6fe7ee3bc88da4a5dc1d0c2c9d1ffc78b78f05ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 55/94] fix: inserting a present key into the cache leaves a
 stale entry, eviction loops for ever

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index d991323..0600e0b 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -154,7 +154,8 @@ class GenericCache(dict):
         
         node.__cache_timestamp = time.time()
         self.values[node] = node
-        self.lru.add(node)
+        # the key may be present already
+        self.lru.update(node)
 
     @synchronized
     def clear(self):
-- 
2.43.0


From d55fd22a9c137656695f3b18d187849a91879480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 56/94] fix: the cache does not find present keys which are not
 strings

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index 0600e0b..c62e997 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -200,6 +200,6 @@ class GenericCache(dict):
         """
         Do we have such key ?
         """
-        return self.values.has_key(key)
+        return self.values.has_key(str(key))
     __contains__ = has_key
 
-- 
2.43.0


From f621b37606cfa186a40975cc921d9b139e62f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 57/94] fix: generating missing values in a cache which fails
 by default

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index c62e997..cc71133 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -107,7 +107,7 @@ class GenericCache(dict):
         """
         Fetch key, calling generator to build if it doesn't exist
         """
-        res = self.fetch(key, onmissing = _marker)
+        res = self.fetch(key, fail = False, onmissing = _marker)
         if res is _marker:
             res = generator(*args, **kwargs)
             self[key] = res
-- 
2.43.0


From dfa05374338f43e21bccc36a81e2fe7340b61e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 58/94] fix: keys of the cache can be read in the middle of an
 insertion

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index cc71133..1fa7652 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -190,12 +190,14 @@ class GenericCache(dict):
     __delitem__ = remove
     __len__ = size
 
+    @synchronized
     def keys(self):
         """
         Get stored keys
         """
         return [ key.key for key in self.values.keys() ]
 
+    @synchronized
     def has_key(self, key):
         """
         Do we have such key ?
-- 
2.43.0


From a3e22487cd5f183e7b937ac9943e378ae205a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 59/94] fix: longest common subsequence of unicode strings is a
 unicode string

---
 lib/daeso/string/lcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/lcs.py b/lib/daeso/string/lcs.py
index 475f7c0..ccdea9f 100644
--- a/lib/daeso/string/lcs.py
+++ b/lib/daeso/string/lcs.py
@@ -75,8 +75,8 @@ def longest_common_subsequence(seq1, seq2):
     LCS.reverse()
     
     # output same type as input seq
-    if type(seq1) == type(seq2) == type(""):
-        return "".join(LCS)
+    if type(seq1) == type(seq2) and isinstance(seq1, basestring):
+        return type(seq1)().join(LCS)
     elif type(seq1) == type(seq2) == type(()):
         return tuple(LCS)
     else:
-- 
2.43.0


From 90bc9dfea423eae51c820fa94434d6acb5d19417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 60/94] fix: n-grams of unicode strings

---
 lib/daeso/string/ngram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/ngram.py b/lib/daeso/string/ngram.py
index 9bc5970..654d715 100644
--- a/lib/daeso/string/ngram.py
+++ b/lib/daeso/string/ngram.py
@@ -82,7 +82,7 @@ def pad(tokens, pad_size, pad_string="_"):
     """
     if type(tokens) == type(tuple()):
         return pad_size * (pad_string,) + tokens + pad_size * (pad_string,)
-    elif type(tokens) == type(""):
+    elif isinstance(tokens, basestring):
         return pad_size * pad_string + tokens + pad_size * pad_string
     else:
         return pad_size * [pad_string] + tokens + pad_size * [pad_string]
-- 
2.43.0


From 92d7fc1fda7392217582db6c201955d53d378a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 61/94] fix: skip bigrams of long sequences exceed the
 recursion limit

---
 lib/daeso/string/sgram.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/string/sgram.py b/lib/daeso/string/sgram.py
index 02de036..c47c832 100644
--- a/lib/daeso/string/sgram.py
+++ b/lib/daeso/string/sgram.py
@@ -36,12 +36,9 @@ def skip_bigram_slices(tokens, distance_limit=sys.maxint):
     """
     # distance_limit corresponds to d_skip in Lin04
     # distance_limit=0 gives ordinary bigrams
-    if tokens:
-        return ( [(tokens[0], next_token) 
-                  for next_token in tokens[1:2 + distance_limit]] +
-                 skip_bigram_slices(tokens[1:], distance_limit) )
-    else:
-        return []
+    return [ (token, next_token)
+             for i, token in enumerate(tokens)
+             for next_token in tokens[i + 1:i + 2 + distance_limit] ]
 
 
 def padded_skip_bigram_slices(tokens, distance_limit=sys.maxint,
-- 
2.43.0


From f01629d254b6bc4c2a06de5751c98333ea6f05c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 62/94] fix: ROUGE-N counts repeated n-grams more often than
 they occur in the references

---
 lib/daeso/string/rouge.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 287b656..4065c30 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -78,8 +78,17 @@ def count_match(candidate_ngrams, reference_ngrams):
     co-occurring in reference_ngrams
     """
     # this implements Count_match(gram_n) from Lin04, section 2
+    # an ngram cannot match more often than it occurs in the references
     # implementation might be slow for long lists
-    return len([cng for cng in candidate_ngrams if cng in reference_ngrams])   
+    unmatched_ngrams = list(reference_ngrams)
+    count = 0
+    
+    for cng in candidate_ngrams:
+        if cng in unmatched_ngrams:
+            unmatched_ngrams.remove(cng)
+            count += 1
+            
+    return count
     
 
 # ==============================================================================
-- 
2.43.0


From 86835e2cf9213c29becc77fd74e1da6bb5166697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 63/94] fix: ROUGE-L and ROUGE-S of empty texts, ROUGE-S of
 texts with repetitions

---
 lib/daeso/string/rouge.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 4065c30..560c809 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -104,10 +104,10 @@ def rouge_l(candidate_tokens, reference_tokens, beta=1):
     beta determines the relative importance of recall in the F-measure
     """
     lcs = len(longest_common_subsequence(candidate_tokens, reference_tokens))
-    recall = lcs / float(len(reference_tokens))
-    precision = lcs / float(len(candidate_tokens))
 
     try:
+        recall = lcs / float(len(reference_tokens))
+        precision = lcs / float(len(candidate_tokens))
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
@@ -136,7 +136,9 @@ def rouge_skip_bigram(skip_bigrams1, skip_bigrams2, beta=1):
     Return the ROUGE-S score for two lists of skip bigrams, where
     beta determines the relative importance of recall in the F-measure
     """
-    matches = set(skip_bigrams1).intersection(set(skip_bigrams2))
+    skip_bigrams1 = set(skip_bigrams1)
+    skip_bigrams2 = set(skip_bigrams2)
+    matches = skip_bigrams1.intersection(skip_bigrams2)
     # matches_count corresponds to SKIP2(X,Y) in Lin04
     # It is defined as "the number of skip bigram matches between X and Y"-
     # However, it is not clear what to do with multiple occurrences of the same bigram.
@@ -144,10 +146,9 @@ def rouge_skip_bigram(skip_bigrams1, skip_bigrams2, beta=1):
     # In the current implementation, X and Y are effectively considered sets (i.e. no duplicates). 
     matches_count = float(len(matches))
     
-    recall = matches_count / len(skip_bigrams1)
-    precision = matches_count / len(skip_bigrams2)
-    
     try:
+        recall = matches_count / len(skip_bigrams1)
+        precision = matches_count / len(skip_bigrams2)
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
-- 
2.43.0


From 9ae036df53e99e1c27a57de83d14eae05b247d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 64/94] fix: ROUGE-SU of lists of tokens

---
 lib/daeso/string/rouge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 560c809..e2cf56c 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -171,5 +171,5 @@ def rouge_su(tokens1, tokens2, distance_limit=sys.maxint,
     # "We can also obtain ROUGE-SU from ROUGE-S by adding a begin-of-sentence marker
     # at the beginning of candidate and reference sentences."
     # Note however that distance_limit may interfere with this trick!
-    return rouge_s((marker,) + tokens1, (marker,) + tokens2,
+    return rouge_s((marker,) + tuple(tokens1), (marker,) + tuple(tokens2),
                    distance_limit, beta)
-- 
2.43.0


From 004551da2740b97332f989ee8c19ffd0656132ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 65/94] fix: zeros are not expressed in spelled out numbers

---
 lib/daeso/string/number.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/string/number.py b/lib/daeso/string/number.py
index 269dabd..84c954d 100644
--- a/lib/daeso/string/number.py
+++ b/lib/daeso/string/number.py
@@ -50,8 +50,9 @@ def spell_out_number(n, prefer_hundreds=True):
     while s:
         triple = s[-3:].rjust(3, "0")
         
-        if i == 0 and triple == "000":
-            words = "nul"
+        if triple == "000":
+            # zeros always remain unexpressed
+            pass
         elif i == 1 and triple == "001":
             # 1000 ==> *eenduizend
             words = ( _triple_modifiers[i] + 
@@ -67,7 +68,7 @@ def spell_out_number(n, prefer_hundreds=True):
         i += 1
         
     # strip spaces from words starting/ending with a triple modifier
-    return words.strip()
+    return words.strip() or "nul"
 
 
 
-- 
2.43.0


From b89d75e54dd1f33e8b862b519cdf77765b58a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 66/94] fix: number.py prints numbers when imported

---
 lib/daeso/string/number.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/lib/daeso/string/number.py b/lib/daeso/string/number.py
index 84c954d..0b903bc 100644
--- a/lib/daeso/string/number.py
+++ b/lib/daeso/string/number.py
@@ -156,12 +156,6 @@ def _digit_triple_to_words(digits):
 
 
     
-             
-print spell_out_number(4401)
-print spell_out_number(6028)
-print spell_out_number(271850)
-
-    
     
     
     
-- 
2.43.0


From f6150f063245f443612294d19d13eb7e272c4b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 67/94] fix: assignment with costs larger than sys.maxint does
 not terminate

---
 lib/daeso/thirdparty/munkres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/thirdparty/munkres.py b/lib/daeso/thirdparty/munkres.py
index a130aff..972eba2 100644
--- a/lib/daeso/thirdparty/munkres.py
+++ b/lib/daeso/thirdparty/munkres.py
@@ -592,11 +592,11 @@ class Munkres:
 
     def __find_smallest(self):
         """Find the smallest uncovered value in the matrix."""
-        minval = sys.maxint
+        minval = None
         for i in range(self.n):
             for j in range(self.n):
                 if (not self.row_covered[i]) and (not self.col_covered[j]):
-                    if minval > self.C[i][j]:
+                    if minval is None or minval > self.C[i][j]:
                         minval = self.C[i][j]
         return minval
 
-- 
2.43.0


From b3fa6359f22aca7252522586b7ed2b3cf05b52c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 68/94] fix: pad_matrix ignores the value to pad with

---
 lib/daeso/thirdparty/munkres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/thirdparty/munkres.py b/lib/daeso/thirdparty/munkres.py
index 972eba2..76893a3 100644
--- a/lib/daeso/thirdparty/munkres.py
+++ b/lib/daeso/thirdparty/munkres.py
@@ -372,11 +372,11 @@ class Munkres:
             new_row = row[:]
             if total_rows > row_len:
                 # Row too short. Pad it.
-                new_row += [0] * (total_rows - row_len)
+                new_row += [pad_value] * (total_rows - row_len)
             new_matrix += [new_row]
 
         while len(new_matrix) < total_rows:
-            new_matrix += [[0] * total_rows]
+            new_matrix += [[pad_value] * total_rows]
 
         return new_matrix
 
-- 
2.43.0


From 98ba43a8bbe1b5be93aaa2bdc13c582c7ebcf039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 69/94] fix: printing a matrix with a zero or negative cost
 fails

---
 lib/daeso/thirdparty/munkres.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/daeso/thirdparty/munkres.py b/lib/daeso/thirdparty/munkres.py
index 76893a3..9d40044 100644
--- a/lib/daeso/thirdparty/munkres.py
+++ b/lib/daeso/thirdparty/munkres.py
@@ -735,8 +735,6 @@ def print_matrix(matrix, msg=None):
         msg : str
             Optional message to print before displaying the matrix
     """
-    import math
-
     if msg is not None:
         print msg
 
@@ -744,7 +742,7 @@ def print_matrix(matrix, msg=None):
     width = 0
     for row in matrix:
         for val in row:
-            width = max(width, int(math.log10(val)) + 1)
+            width = max(width, len('%d' % val))
 
     # Make the format string
     format = '%%%dd' % width
-- 
2.43.0


From d145f783807e1f52b33758b2f46de1bbd4389b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 70/94] fix: views of an ordered dictionary do not follow its
 order

---
 lib/daeso/thirdparty/odict.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/odict.py b/lib/daeso/thirdparty/odict.py
index e656f18..05d72a7 100644
--- a/lib/daeso/thirdparty/odict.py
+++ b/lib/daeso/thirdparty/odict.py
@@ -9,7 +9,7 @@ I redefined the iterkeys, itervalues, and iteritems methods,
 because they were broken in Python 2.6.3
 """
 
-from collections import MutableMapping
+from collections import ItemsView, KeysView, MutableMapping, ValuesView
 
 class OrderedDict(dict, MutableMapping):
 
@@ -68,6 +68,16 @@ class OrderedDict(dict, MutableMapping):
     itervalues = MutableMapping.itervalues
     iteritems = MutableMapping.iteritems
 
+    # dict's own views do not follow the order of the keys
+    def viewkeys(self):
+        return KeysView(self)
+
+    def viewvalues(self):
+        return ValuesView(self)
+
+    def viewitems(self):
+        return ItemsView(self)
+
     def __repr__(self):
         pairs = ', '.join(map('%r: %r'.__mod__, self.items()))
         return '%s({%s})' % (self.__class__.__name__, pairs)
-- 
2.43.0


From 65e9bb2f008777908f3dd4d0660e6ccd0495d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 71/94] fix: pgc_split makes parts that are too large

---
 bin/pgc_split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/pgc_split.py b/bin/pgc_split.py
index fc5eaa9..0b07f6c 100755
--- a/bin/pgc_split.py
+++ b/bin/pgc_split.py
@@ -78,7 +78,8 @@ corpus = ParallelGraphCorpus(inf=args.filename)
 root, ext = os.path.splitext(args.filename)
 
 if not args.size:
-    args.size = int(round(len(corpus) / args.parts + 0.5))
+    # integer division rounding up; an empty corpus has no parts
+    args.size = max(1, -(-len(corpus) // args.parts))
 
 for i in range(0, len(corpus), args.size): 
     j = min(i + args.size, len(corpus))
-- 
2.43.0


From ca907488ce2b9c7d35d3789503558dacc174c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 72/94] fix: pgc_extract_phrases fails on aligned nodes without
 tokens

---
 bin/pgc_extract_phrases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/pgc_extract_phrases.py b/bin/pgc_extract_phrases.py
index 08d522c..4fcf953 100755
--- a/bin/pgc_extract_phrases.py
+++ b/bin/pgc_extract_phrases.py
@@ -46,9 +46,9 @@ def extract_phrases(file, delimiter="\t", verbose=False):
         
         for nodes, relation in graph_pair.alignments_iter():
             columns = [ 
-                graphs.source.get_node_token_string(nodes.source),
+                graphs.source.get_node_token_string(nodes.source) or "",
                 relation,
-                graphs.target.get_node_token_string(nodes.target) ]
+                graphs.target.get_node_token_string(nodes.target) or "" ]
             
             if verbose:
                 banks = graph_pair.get_banks()
-- 
2.43.0


From 1107cc17cc3b68f1c596f968da9272e336e81506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 73/94] fix: pgc_zip adds shared graphbanks repeatedly and
 different files under one name

---
 bin/pgc_zip.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/bin/pgc_zip.py b/bin/pgc_zip.py
index aed0d4e..c9e852b 100755
--- a/bin/pgc_zip.py
+++ b/bin/pgc_zip.py
@@ -47,7 +47,21 @@ from daeso.utils.opsys import multiglob
 from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE
 
 
+def add_file(zip_arch, filename, arch_filename, added):
+    # corpora may share graphbanks, but two different files can not have the
+    # same name in the archive
+    filename = os.path.realpath(filename)
+    
+    if arch_filename not in added:
+        zip_arch.write(filename, arch_filename)
+        added[arch_filename] = filename
+    elif added[arch_filename] != filename:
+        exit("error: {0} and {1} have the same name in the archive".format(
+            added[arch_filename], filename))
+
+
 def pgc_zip(zip_filename, pgc_filenames):
+    added = {}
     zip_arch = zipfile.ZipFile(zip_filename, "w")
     arch_dir = os.path.splitext( os.path.basename(zip_filename))[0]
     
@@ -55,7 +69,7 @@ def pgc_zip(zip_filename, pgc_filenames):
         # add corpus to archive
         arch_filename = os.path.join( arch_dir,
                                       os.path.basename(corpus_filename) )
-        zip_arch.write(corpus_filename, arch_filename)
+        add_file(zip_arch, corpus_filename, arch_filename, added)
         
         corpus = ParallelGraphCorpus(inf=corpus_filename,
                                      graph_loading=LOAD_NONE)
@@ -65,7 +79,7 @@ def pgc_zip(zip_filename, pgc_filenames):
             # add graphbank files to archive
             arch_filename = os.path.join( arch_dir,
                                           os.path.basename(gb_filename) )
-            zip_arch.write(gb_filename, arch_filename)
+            add_file(zip_arch, gb_filename, arch_filename, added)
             
     zip_arch.close()
     
-- 
2.43.0


From aee18cac5943305f8ac9584a4132677a15c35372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 74/94] fix: pgc_extract_phrases fails on a delimiter outside
 ASCII

---
 bin/pgc_extract_phrases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_extract_phrases.py b/bin/pgc_extract_phrases.py
index 4fcf953..d925bbe 100755
--- a/bin/pgc_extract_phrases.py
+++ b/bin/pgc_extract_phrases.py
@@ -62,7 +62,7 @@ def extract_phrases(file, delimiter="\t", verbose=False):
                     nodes.target
                     ] + columns
                 
-            print delimiter.join(columns).encode("utf-8")
+            print delimiter.decode("utf-8").join(columns).encode("utf-8")
             
             
 parser = DaesoArgParser(description=__doc__.strip())
-- 
2.43.0


From 3074688f63f978cde899e02d6f9dda55f99ff278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:04 +0000
Subject: [PATCH 75/94] fix: writing an evaluation whose relations or names are
 not ASCII

---
 lib/daeso/pgc/evaluate.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/pgc/evaluate.py b/lib/daeso/pgc/evaluate.py
index 53f56cd..5f7008a 100644
--- a/lib/daeso/pgc/evaluate.py
+++ b/lib/daeso/pgc/evaluate.py
@@ -115,6 +115,15 @@ from daeso.utils.report import header
 __all__ = [ "AlignEval" ]
 
 
+def _encode(s):
+    # relations read from a corpus may be unicode strings
+    if isinstance(s, unicode):
+        s = s.encode("utf-8")
+        
+    return s
+
+
+
 class AlignEval(dict):   
     """
     Alignment Evaluation
@@ -357,7 +366,7 @@ class AlignEval(dict):
         out.write('\n' + separator)
         
         for rel, align_counts in zip(self.relations, self):
-            out.write(rel.ljust(width))
+            out.write(_encode(rel.ljust(width)))
             
             for c in AlignCounts.count_keys:
                 s = str(self[rel].count_stats[c]["sum"])
@@ -385,7 +394,7 @@ class AlignEval(dict):
         out.write('\n' + separator)
         
         for rel, align_counts in zip(self.relations, self):
-            out.write(rel.ljust(width))
+            out.write(_encode(rel.ljust(width)))
             
             for m in AlignCounts.measure_keys:
                 # repport the relation's micro mean here
@@ -614,7 +623,7 @@ class AlignCountsTable(list):
         cols = len(AlignCounts.count_keys)
         separator = (namespace + cols * width) * '-' + '\n'
         
-        if heading: out.write(heading + "\n\n")
+        if heading: out.write(_encode(heading) + "\n\n")
         
         # write count stats
         
@@ -627,7 +636,7 @@ class AlignCountsTable(list):
         out.write('\n' + separator)
         
         for name, align_counts in zip(names, self):
-            out.write(str(name).ljust(namespace))
+            out.write(_encode(name.ljust(namespace)))
             
             for c in AlignCounts.count_keys:
                 s = str(align_counts.counts[c])
@@ -661,7 +670,7 @@ class AlignCountsTable(list):
         out.write('\n' + separator)
         
         for name, align_counts in zip(names, self):
-            out.write(str(name).ljust(namespace))
+            out.write(_encode(name.ljust(namespace)))
             
             for m in AlignCounts.measure_keys:
                 value = align_counts.measures[m]
-- 
2.43.0


From 8be87945aab72d17d35e7ed50737d7bc736e58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:06 +0000
Subject: [PATCH 76/94] fix: a row of a statistics table whose name starts with
 dashes is read as a separator

---
 lib/daeso/stats/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 813e0cf..85fa4d0 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -187,7 +187,8 @@ class StatsTable(OrderedDict):
                         
                         
     def is_separator(self, l):
-        return l.startswith("----")
+        # the first column of a row may start with dashes too
+        return l.startswith("----") and not l.strip().strip("-")
         
 
     def summarize(self):
-- 
2.43.0


From f20eb313fa41df6260ecdb33c60c89825b528e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:12 +0000
Subject: [PATCH 77/94] fix: pexpect fails with a NameError at the end of the
 output or of the time limit

---
 lib/daeso/thirdparty/pexpect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/daeso/thirdparty/pexpect.py b/lib/daeso/thirdparty/pexpect.py
index 7f5e139..97ee103 100644
--- a/lib/daeso/thirdparty/pexpect.py
+++ b/lib/daeso/thirdparty/pexpect.py
@@ -86,6 +86,7 @@ A critical module was not found. Probably this operating system does not
 support it. Pexpect is intended for UNIX-like operating systems.""")
 
 __version__ = '2.4'
+__revision__ = '$Revision: 516 $'
 
 __all__ = ['ExceptionPexpect', 'EOF', 'TIMEOUT', 'spawn', 'run', 'which',
     'split_command_line', '__version__', '__revision__']
-- 
2.43.0


From 8dd1ae750f5b81db1da3934572325e8bb30e1f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:46 +0000
Subject: [PATCH 78/94] fix: pexpect's interact fails with an OSError when the
 child ends

---
 lib/daeso/thirdparty/pexpect.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/pexpect.py b/lib/daeso/thirdparty/pexpect.py
index 97ee103..fd714c1 100644
--- a/lib/daeso/thirdparty/pexpect.py
+++ b/lib/daeso/thirdparty/pexpect.py
@@ -1523,7 +1523,16 @@ class spawn (object):
         while self.isalive():
             r,w,e = self.__select([self.child_fd, self.STDIN_FILENO], [], [])
             if self.child_fd in r:
-                data = self.__interact_read(self.child_fd)
+                try:
+                    data = self.__interact_read(self.child_fd)
+                except OSError, e:
+                    # Linux does this at the end of file, see read_nonblocking
+                    if e[0] != errno.EIO:
+                        raise
+                    data = ''
+                if data == '':
+                    self.flag_eof = True
+                    break
                 if output_filter: data = output_filter(data)
                 if self.logfile is not None:
                     self.logfile.write (data)
-- 
2.43.0


From d13c14494a2b2348e2ac19297fd7f6d48ce78326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:46 +0000
Subject: [PATCH 79/94] fix: pexpect's interact sends all but the last of
 several escape characters typed at once

---
 lib/daeso/thirdparty/pexpect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/pexpect.py b/lib/daeso/thirdparty/pexpect.py
index fd714c1..2c9e2ac 100644
--- a/lib/daeso/thirdparty/pexpect.py
+++ b/lib/daeso/thirdparty/pexpect.py
@@ -1541,7 +1541,7 @@ class spawn (object):
             if self.STDIN_FILENO in r:
                 data = self.__interact_read(self.STDIN_FILENO)
                 if input_filter: data = input_filter(data)
-                i = data.rfind(escape_character)
+                i = data.find(escape_character)
                 if i != -1:
                     data = data[:i]
                     self.__interact_writen(self.child_fd, data)
-- 
2.43.0


From 811a4770b09e24a334c9bf79986b0c12fd686dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:46 +0000
Subject: [PATCH 80/94] fix: pexpect's split_command_line adds or drops empty
 arguments at the ends

---
 lib/daeso/thirdparty/pexpect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/thirdparty/pexpect.py b/lib/daeso/thirdparty/pexpect.py
index 2c9e2ac..3c15e48 100644
--- a/lib/daeso/thirdparty/pexpect.py
+++ b/lib/daeso/thirdparty/pexpect.py
@@ -1818,7 +1818,7 @@ def split_command_line(command_line):
     state_singlequote = 2
     state_doublequote = 3
     state_whitespace = 4 # The state of consuming whitespace between commands.
-    state = state_basic
+    state = state_whitespace
 
     for c in command_line:
         if state == state_basic or state == state_whitespace:
@@ -1853,7 +1853,8 @@ def split_command_line(command_line):
             else:
                 arg = arg + c
 
-    if arg != '':
+    # (an argument may be empty if it is quoted)
+    if arg != '' or state == state_basic:
         arg_list.append(arg)
     return arg_list
 
-- 
2.43.0


From 2e93415dc3ec945a728bab19853cddcab5302713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 81/94] fix: argparse drops every '--' instead of the first

---
 lib/daeso/thirdparty/argparse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index 29963a2..6644472 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -2120,9 +2120,10 @@ class ArgumentParser(_AttributeHolder, _ActionsContainer):
     # Value conversion methods
     # ========================
     def _get_values(self, action, arg_strings):
-        # for everything but PARSER args, strip out '--'
-        if action.nargs is not PARSER:
-            arg_strings = [s for s in arg_strings if s != '--']
+        # for everything but PARSER args, strip out the first '--'
+        if action.nargs is not PARSER and '--' in arg_strings:
+            arg_strings = list(arg_strings)
+            arg_strings.remove('--')
 
         # optional argument produces a default when not present
         if not arg_strings and action.nargs == OPTIONAL:
-- 
2.43.0


From e71b3fe33cddb75b84d82d58075bc46237057bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 82/94] fix: argparse takes a complete option name with a value
 as an ambiguous abbreviation

---
 lib/daeso/thirdparty/argparse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index 6644472..a45e063 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -2048,7 +2048,12 @@ class ArgumentParser(_AttributeHolder, _ActionsContainer):
                 option_prefix = option_string
                 explicit_arg = None
             for option_string in self._option_string_actions:
-                if option_string.startswith(option_prefix):
+                # a complete name is not an abbreviation of another one
+                if option_prefix in self._option_string_actions:
+                    matches = option_string == option_prefix
+                else:
+                    matches = option_string.startswith(option_prefix)
+                if matches:
                     action = self._option_string_actions[option_string]
                     tup = action, option_string, explicit_arg
                     result.append(tup)
-- 
2.43.0


From 741111e7225ae729a42fa446e128083c241db14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:09 +0000
Subject: [PATCH 83/94] fix: argparse fails on an empty argument when arguments
 may come from files

---
 lib/daeso/thirdparty/argparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index a45e063..ba72359 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -1930,7 +1930,7 @@ class ArgumentParser(_AttributeHolder, _ActionsContainer):
         for arg_string in arg_strings:
 
             # for regular arguments, just add them back into the list
-            if arg_string[0] not in self.fromfile_prefix_chars:
+            if not arg_string or arg_string[0] not in self.fromfile_prefix_chars:
                 new_arg_strings.append(arg_string)
 
             # replace arguments referencing files with the file content
-- 
2.43.0


From a54c439048a54aaa9985a5cbb90c5faf48bbbeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:09 +0000
Subject: [PATCH 84/94] fix: argparse takes unknown options with a digit for
 negative numbers

---
 lib/daeso/thirdparty/argparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index ba72359..5ab30aa 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -1203,7 +1203,7 @@ class _ActionsContainer(object):
         self._defaults = {}
 
         # determines whether an "option" looks like a negative number
-        self._negative_number_matcher = _re.compile(r'^-\d+|-\d*.\d+$')
+        self._negative_number_matcher = _re.compile(r'^-\d+$|^-\d*\.\d+$')
 
         # whether or not there are any optionals that look like negative
         # numbers -- uses a list so it can be shared and edited
-- 
2.43.0


From 998dafb1a8dbaa8595198855bed7daa8aedb9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:41 +0000
Subject: [PATCH 85/94] fix: argparse fails on joined flags when there are
 several prefix characters

---
 lib/daeso/thirdparty/argparse.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index 5ab30aa..638766d 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -1785,13 +1785,12 @@ class ArgumentParser(_AttributeHolder, _ActionsContainer):
                     chars = self.prefix_chars
                     if arg_count == 0 and option_string[1] not in chars:
                         action_tuples.append((action, [], option_string))
-                        for char in self.prefix_chars:
-                            option_string = char + explicit_arg[0]
-                            explicit_arg = explicit_arg[1:] or None
-                            optionals_map = self._option_string_actions
-                            if option_string in optionals_map:
-                                action = optionals_map[option_string]
-                                break
+                        char = option_string[0]
+                        option_string = char + explicit_arg[0]
+                        explicit_arg = explicit_arg[1:] or None
+                        optionals_map = self._option_string_actions
+                        if option_string in optionals_map:
+                            action = optionals_map[option_string]
                         else:
                             msg = _('ignored explicit argument %r')
                             raise ArgumentError(action, msg % explicit_arg)
-- 
2.43.0


From 0603f7ab2cacaca0b2daba2a0b41af386a799af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:41 +0000
Subject: [PATCH 86/94] fix: exclusive options of a titled group are not
 exclusive in argparse

---
 lib/daeso/thirdparty/argparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index 638766d..0cfe20c 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -1469,6 +1469,8 @@ class _ArgumentGroup(_ActionsContainer):
         self._defaults = container._defaults
         self._has_negative_number_optionals = \
             container._has_negative_number_optionals
+        self._mutually_exclusive_groups = \
+            container._mutually_exclusive_groups
 
     def _add_action(self, action):
         action = super(_ArgumentGroup, self)._add_action(action)
-- 
2.43.0


From 02f33c8090e63b537c345f2ed4fd3bb0348170d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:18 +0000
Subject: [PATCH 87/94] fix: a segment file which cannot be read leaves the
 working directory changed

---
 lib/daeso/stats/corpus.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 8d04150..980421a 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -134,18 +134,19 @@ def stats(pgc_dir, pgc_files_pattern, with_unaligned_roots=False):
     # must change to dir of pgc files,
     # because paths to gb files are interpreted relative to location of pgc file 
     try:
-        chdir(pgc_dir)
-    except OSError:
-        # dir does not exist
-        # assume there are no files, which results in a empty table
-        pgc_files = []
-    else:
-        pgc_files = glob(pgc_files_pattern)
-        
-    pgc_table, gb_table = pgc_stats(pgc_files, 
-                                    with_unaligned_roots=with_unaligned_roots)
-
-    chdir(cwd)
+        try:
+            chdir(pgc_dir)
+        except OSError:
+            # dir does not exist
+            # assume there are no files, which results in a empty table
+            pgc_files = []
+        else:
+            pgc_files = glob(pgc_files_pattern)
+            
+        pgc_table, gb_table = pgc_stats(pgc_files, 
+                                        with_unaligned_roots=with_unaligned_roots)
+    finally:
+        chdir(cwd)
     
     return  pgc_table, gb_table
     
-- 
2.43.0


From 20048aed259b6a533d222ee959d772312e5b6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:34 +0000
Subject: [PATCH 88/94] fix: corpora fail when paths of directories or
 graphbanks are not ASCII

---
 lib/daeso/gb/graphbank.py |  3 ++-
 lib/daeso/pgc/corpus.py   |  5 ++++-
 lib/daeso/utils/opsys.py  | 21 +++++++++++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index d0623b7..dc04891 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -28,6 +28,7 @@ import os
 import weakref
 
 from daeso.gb.graphstub import GraphStub
+from daeso.utils.opsys import decode_path
 
 import daeso.gb.register 
 
@@ -141,7 +142,7 @@ class GraphBank(object):
         #if not os.path.isabs(file_path):
         #    raise ValueError("file_path must be an absolute path")
         
-        self._file_path = os.path.realpath(file_path)
+        self._file_path = decode_path(os.path.realpath(file_path))
         
         
     def get_graph(self, graph_id):
diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 7c1e39e..29a3058 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -44,6 +44,7 @@ from daeso.gb.graphbank import GraphBank, SparseGraphBank
 from daeso.exception import DaesoWarning, DaesoError
 from daeso.pair import Pair
 from daeso.utils.etree import write, equals
+from daeso.utils.opsys import decode_path
 
 
 # global flags for graph loading
@@ -798,6 +799,8 @@ class PGCParser(object):
             # directory (cf. PGCGenerator._gen_graphbanks)
             self.dir = os.getcwd()
             
+        self.dir = decode_path(self.dir)
+            
         if pg_corpus is not None:
             assert isinstance(pg_corpus, ParallelGraphCorpus)
             self.pg_corpus = pg_corpus
@@ -1227,7 +1230,7 @@ class PGCGenerator(object):
                 # Create filename relative to corpus dir.
                 # Use realpath to eliminate symlinks in out_dir, 
                 # because otherwise relpath may become confused 
-                out_dir = os.path.realpath(out_dir)
+                out_dir = decode_path(os.path.realpath(out_dir))
                 file_elem.text = os.path.relpath(gb._file_path, out_dir)
                 
         
diff --git a/lib/daeso/utils/opsys.py b/lib/daeso/utils/opsys.py
index 0e70905..f64fe15 100644
--- a/lib/daeso/utils/opsys.py
+++ b/lib/daeso/utils/opsys.py
@@ -26,8 +26,29 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 
 import os
+import sys
 import glob as _glob
 
+
+def decode_path(path):
+    """
+    convert a path which contains characters outside ASCII to a unicode
+    string, so it can be combined with and compared to paths from XML files
+    """
+    if isinstance(path, str):
+        encoding = sys.getfilesystemencoding() or "utf-8"
+        try:
+            # a string of ASCII characters goes with both
+            unicode(path)
+        except UnicodeDecodeError:
+            try:
+                path = path.decode(encoding)
+            except UnicodeDecodeError:
+                # not in the encoding of the file system
+                pass
+    return path
+
+
 def makedirs(path, mode=0777):
     """
     a version of os.makedirs which raises no exception when the dir already
-- 
2.43.0


From 1633ee9de8307d531b2ee38bca1b681a1ceb1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:34 +0000
Subject: [PATCH 89/94] fix: pgc_zip fails when file names are not ASCII

---
 bin/pgc_zip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/pgc_zip.py b/bin/pgc_zip.py
index c9e852b..209f5c8 100755
--- a/bin/pgc_zip.py
+++ b/bin/pgc_zip.py
@@ -43,7 +43,7 @@ import zipfile
 
 
 from daeso.utils.cli import DaesoArgParser
-from daeso.utils.opsys import multiglob
+from daeso.utils.opsys import multiglob, decode_path
 from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE
 
 
@@ -63,12 +63,12 @@ def add_file(zip_arch, filename, arch_filename, added):
 def pgc_zip(zip_filename, pgc_filenames):
     added = {}
     zip_arch = zipfile.ZipFile(zip_filename, "w")
-    arch_dir = os.path.splitext( os.path.basename(zip_filename))[0]
+    arch_dir = decode_path(os.path.splitext( os.path.basename(zip_filename))[0])
     
     for corpus_filename in multiglob(pgc_filenames):
         # add corpus to archive
         arch_filename = os.path.join( arch_dir,
-                                      os.path.basename(corpus_filename) )
+                                      decode_path(os.path.basename(corpus_filename)) )
         add_file(zip_arch, corpus_filename, arch_filename, added)
         
         corpus = ParallelGraphCorpus(inf=corpus_filename,
-- 
2.43.0


From 6b088e43a15f2a9e49a7bf0c537d963a8f772e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:34 +0000
Subject: [PATCH 90/94] fix: pgc_chdir fails when path prefixes are not ASCII

---
 bin/pgc_chdir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/pgc_chdir.py b/bin/pgc_chdir.py
index 3a11d96..9ac070e 100755
--- a/bin/pgc_chdir.py
+++ b/bin/pgc_chdir.py
@@ -35,6 +35,7 @@ from xml.etree.cElementTree import ElementTree, tostring
 
 from daeso.utils.cli import DaesoArgParser
 from daeso.utils.etree import write
+from daeso.utils.opsys import decode_path
 
 
 # TODO:
@@ -86,7 +87,7 @@ for fn in args.corpus:
     tree = ElementTree(file=fn)
         
     for file_el in tree.findall("graphbanks/file"):
-        from_path, to_path = args.path_prefix_pair
+        from_path, to_path = map(decode_path, args.path_prefix_pair)
         
         if file_el.text.startswith(from_path):
             if args.verbose or args.test:
-- 
2.43.0


From b6b18d07f85926b2139ed6a1a1b79bc654ba4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:34 +0000
Subject: [PATCH 91/94] fix: ptc_chdir fails when paths are not ASCII

---
 bin/ptc_chdir.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bin/ptc_chdir.py b/bin/ptc_chdir.py
index e27ea0f..876f099 100755
--- a/bin/ptc_chdir.py
+++ b/bin/ptc_chdir.py
@@ -33,6 +33,7 @@ from string import uppercase
 
 from daeso.utils.cli import ArgumentParser
 from daeso.ptc.document import HitaextDoc
+from daeso.utils.opsys import decode_path
 
 
 parser = ArgumentParser(description=__doc__)
@@ -78,7 +79,7 @@ for fn in args.corpus:
         path = htdoc.get_filename(side)
         
         if args.verbose or args.test:
-            print >>stderr, "Current %s path is %s" %  (side, path)
+            print >>stderr, "Current %s path is %s" %  (side, path.encode("utf-8"))
         
         # a heuristic to deal with windows paths        
         if path[:1] in uppercase and path[1:2] == ":":
@@ -86,10 +87,10 @@ for fn in args.corpus:
             path = path[2:]
         path = path.replace("\\", "/")
         
-        path = join(args.dir, basename(path))
+        path = join(decode_path(args.dir), basename(path))
         
         if args.verbose or args.test:
-            print >>stderr, "Changing %s path to %s" %  (side, path)
+            print >>stderr, "Changing %s path to %s" %  (side, path.encode("utf-8"))
         
         if not args.test:
             htdoc.set_filename(side, path)
-- 
2.43.0


From a244952489f10c569dddd1bf11ef8da70c0c3aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:34 +0000
Subject: [PATCH 92/94] fix: texts of a parallel text corpus are not found when
 paths are not ASCII

---
 lib/daeso/ptc/document.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 6b4f390..b553833 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -29,6 +29,7 @@ from xml.etree.cElementTree import Element, ElementTree, XML
 
 from daeso.ptc.ielemtree import IndexElemTree
 from daeso.pair import Pair
+from daeso.utils.opsys import decode_path
 
 from os.path import basename, dirname, exists, join
     
@@ -93,9 +94,9 @@ class HitaextDoc(ElementTree):
             for p in (
                 fn,
                 # relative path
-                join(dirname(self.filename), fn),
+                join(decode_path(dirname(self.filename)), fn),
                 # ignore path, just search in same dir as hitaext document
-                join(dirname(self.filename), basename(fn)) 
+                join(decode_path(dirname(self.filename)), basename(fn)) 
             ):
                 if exists(p):
                     return p
-- 
2.43.0


From 95642855e450c2a7dd708959625a6589aa6395d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:35 +0000
Subject: [PATCH 93/94] fix: writing an evaluation of which the names are no
 strings

---
 lib/daeso/pgc/evaluate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/daeso/pgc/evaluate.py b/lib/daeso/pgc/evaluate.py
index 5f7008a..4ad6fee 100644
--- a/lib/daeso/pgc/evaluate.py
+++ b/lib/daeso/pgc/evaluate.py
@@ -636,6 +636,9 @@ class AlignCountsTable(list):
         out.write('\n' + separator)
         
         for name, align_counts in zip(names, self):
+            if not isinstance(name, basestring):
+                name = str(name)
+                
             out.write(_encode(name.ljust(namespace)))
             
             for c in AlignCounts.count_keys:
@@ -670,6 +673,9 @@ class AlignCountsTable(list):
         out.write('\n' + separator)
         
         for name, align_counts in zip(names, self):
+            if not isinstance(name, basestring):
+                name = str(name)
+                
             out.write(_encode(name.ljust(namespace)))
             
             for m in AlignCounts.measure_keys:
-- 
2.43.0


From 24de943f0d3b341b371637b3611fa7b30a775ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:41 +0000
Subject: [PATCH 94/94] fix: statistics of files whose names are not ASCII can
 not be written

---
 lib/daeso/stats/table.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 85fa4d0..7fcd679 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -133,7 +133,13 @@ class StatsTable(OrderedDict):
         out.write("\n" + tot_width * "-" + "\n")
                 
         for row in zip(*self.values()):
-            out.write(format % row)
+            line = format % row
+            
+            # file names may be unicode strings
+            if isinstance(line, unicode):
+                line = line.encode("utf-8")
+                
+            out.write(line)
             
         out.write(tot_width * "-" + "\n" +
                   overalls + 3 * "\n" )
-- 
2.43.0

