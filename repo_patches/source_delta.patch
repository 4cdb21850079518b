From 9481bdba7818d5034f93a37e226ac932187c31e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:56 +0000
Subject: [PATCH 01/73] fix: read node attributes through the graph's nodes
 view (Graph.node no longer exists)

---
 metaknowledge/diffusion.py       | 14 ++++----
 metaknowledge/grantCollection.py |  6 ++--
 metaknowledge/graphHelpers.py    |  6 ++--
 metaknowledge/mkCollection.py    | 58 ++++++++++++++++----------------
 4 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 92f9bb4..21b965f 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -105,7 +105,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                     if val not in workingGraph:
                         workingGraph.add_node(val, source = False, target = True, **RtExtras)
                     else:
-                        workingGraph.node[val]["target"] = True
+                        workingGraph.nodes[val]["target"] = True
                     targetCites = Rt.get('CR')
                     if targetCites:
                         for Rs in (sourceDict[c] for c in targetCites if c in sourceDict):
@@ -424,19 +424,19 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
             if extraType is not None:
                 if extraKeys:
                     for key in extraKeys:
-                        grph.node[n][key] = 0
-                grph.node[n][diffusionLabel] = 0
+                        grph.nodes[n][key] = 0
+                grph.nodes[n][diffusionLabel] = 0
                 try:
                     for k, v in countsDict[n].items():
                         if k == 'TargetCount':
-                            grph.node[n][diffusionLabel] = v
+                            grph.nodes[n][diffusionLabel] = v
                         else:
                             if k:
-                                grph.node[n][k] = v
+                                grph.nodes[n][k] = v
                 except KeyError:
-                    grph.node[n][diffusionLabel] = 0
+                    grph.nodes[n][diffusionLabel] = 0
             else:
-                grph.node[n][diffusionLabel] = countsDict.get(n, 0)
+                grph.nodes[n][diffusionLabel] = countsDict.get(n, 0)
             count += 1
         PBar.finish("Done adding diffusion counts to a graph")
     return countsDict
diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 54fc347..8428c87 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -198,7 +198,7 @@ class GrantCollection(CollectionWithIDs):
                             else:
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
-                            grph.node[invest1[0]]['count'] += 1
+                            grph.nodes[invest1[0]]['count'] += 1
                         for invest2 in investList[i + 1:]:
                             if invest2[0] not in grph:
                                 if count:
@@ -206,7 +206,7 @@ class GrantCollection(CollectionWithIDs):
                                 else:
                                     grph.add_node(invest2[0], field = invest2[1])
                             elif count:
-                                grph.node[invest2[0]]['count'] += 1
+                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
@@ -221,7 +221,7 @@ class GrantCollection(CollectionWithIDs):
                         else:
                             grph.add_node(invest1[0], field = invest1[1])
                     elif count:
-                        grph.node[invest1[0]]['count'] += 1
+                        grph.nodes[invest1[0]]['count'] += 1
             if _institutionLevel:
                 PBar.finish("Done making a co-institution network from {}".format(self))
             else:
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3eb5389..9db19bb 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -439,9 +439,9 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
                 else:
                     eTimeString = ''
                 if weighted:
-                    f.write("{}{} {} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString], eDict[weightString]))
+                    f.write("{}{} {} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString], eDict[weightString]))
                 else:
-                    f.write("{}{} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString]))
+                    f.write("{}{} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString]))
         PBar.finish("Done writing tnet file '{}'".format(name))
 
 def getWeight(grph, nd1, nd2, weightString = "weight", returnType = int):
@@ -715,7 +715,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
     for addedNode, attribs in addedGraph.nodes(data = True):
         if incrementedNodeVal:
             try:
-                targetGraph.node[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
+                targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
             except KeyError:
                 targetGraph.add_node(addedNode, **attribs)
         else:
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index a9afbbe..3c80257 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -907,21 +907,21 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                                 if nodeCount:
                                     try:
-                                        grph.node[node1]['count'] += 1
+                                        grph.nodes[node1]['count'] += 1
                                     except KeyError:
-                                        grph.node[node1]['count'] = 1
+                                        grph.nodes[node1]['count'] = 1
                                 if nodeAttribute:
                                     try:
-                                        currentAttrib = grph.node[node1][nodeAttribute]
+                                        currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.node[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = nodeVals
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                            grph.node[node1][nodeAttribute].append(nodeValue)
+                                            grph.nodes[node1][nodeAttribute].append(nodeValue)
                         elif len(tmplst) == 1:
                             if nodeCount:
                                 try:
-                                    grph.node[tmplst[0]]['count'] += 1
+                                    grph.nodes[tmplst[0]]['count'] += 1
                                 except KeyError:
                                     grph.add_node(tmplst[0], count = 1)
                             else:
@@ -929,12 +929,12 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(tmplst[0])
                             if nodeAttribute:
                                 try:
-                                    currentAttrib = grph.node[tmplst[0]][nodeAttribute]
+                                    currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.node[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                        grph.node[tmplst[0]][nodeAttribute].append(nodeValue)
+                                        grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
                         else:
                             pass
                     else:
@@ -944,7 +944,7 @@ class CollectionWithIDs(Collection):
                             nodeVal = str(contents)
                         if nodeCount:
                             try:
-                                grph.node[nodeVal]['count'] += 1
+                                grph.nodes[nodeVal]['count'] += 1
                             except KeyError:
                                 grph.add_node(nodeVal, count = 1)
                         else:
@@ -952,12 +952,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_node(nodeVal)
                         if nodeAttribute:
                             try:
-                                currentAttrib = grph.node[nodeVal][nodeAttribute]
+                                currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.node[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                    grph.node[nodeVal][nodeAttribute].append(nodeValue)
+                                    grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
             if PBar:
                 PBar.finish("Done making a {} from {}".format(_networkTypeString, modes))
         return grph
@@ -1127,12 +1127,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_edge(node1, node2)
                     if nodeCount:
                         try:
-                            grph.node[node1]['count'] += 1
+                            grph.nodes[node1]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node1]['count'] = 1
+                                grph.nodes[node1]['count'] = 1
                                 if recordType:
-                                    grph.node[node1]['type'] = tag1
+                                    grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
                                     grph.add_node(node1, type = tag1)
@@ -1145,22 +1145,22 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node1)
                         elif recordType:
-                            if 'type' not in grph.node[node1]:
-                                grph.node[node1]['type'] = tag1
+                            if 'type' not in grph.nodes[node1]:
+                                grph.nodes[node1]['type'] = tag1
 
                 for node2 in contents2:
                     if nodeCount:
                         try:
-                            grph.node[node2]['count'] += 1
+                            grph.nodes[node2]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node2]['count'] = 1
+                                grph.nodes[node2]['count'] = 1
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                             except KeyError:
                                 grph.add_node(node2, count = 1)
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                     else:
                         if not grph.has_node(node2):
                             if recordType:
@@ -1168,8 +1168,8 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node2)
                         elif recordType:
-                            if 'type' not in grph.node[node2]:
-                                grph.node[node2]['type'] = tag2
+                            if 'type' not in grph.nodes[node2]:
+                                grph.nodes[node2]['type'] = tag2
             if PBar:
                 PBar.finish("Done making a two mode network of " + tag1 + " and " + tag2)
         return grph
@@ -1281,12 +1281,12 @@ class CollectionWithIDs(Collection):
                                         grph.add_edge(node1, node2)
                         if nodeCount:
                             try:
-                                grph.node[node1]['count'] += 1
+                                grph.nodes[node1]['count'] += 1
                             except KeyError:
                                 try:
-                                    grph.node[node1]['count'] = 1
+                                    grph.nodes[node1]['count'] = 1
                                     if recordType:
-                                        grph.node[node1]['type'] = vlst1[0]
+                                        grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
                                         grph.add_node(node1, type = vlst1[0])
@@ -1300,9 +1300,9 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                             elif recordType:
                                 try:
-                                    grph.node[node1]['type'] += vlst1[0]
+                                    grph.nodes[node1]['type'] += vlst1[0]
                                 except KeyError:
-                                    grph.node[node1]['type'] = vlst1[0]
+                                    grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
         return grph
-- 
2.43.0


From 389e07690b1603018bfdfc86da17eb0532595a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:56 +0000
Subject: [PATCH 02/73] fix: use graph methods that exist when writing, merging
 and counting on graphs

---
 metaknowledge/diffusion.py    | 2 +-
 metaknowledge/graphHelpers.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 21b965f..b9ce40a 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -419,7 +419,7 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         except StopIteration:
             pass
         count = 0
-        for n in grph.nodes_iter():
+        for n in grph.nodes():
             PBar.updateVal(.5 + .5 * (count / len(grph)), "Adding count for '{}'".format(n))
             if extraType is not None:
                 if extraKeys:
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 9db19bb..d35fdc4 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -213,7 +213,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
         if extraInfo:
             csvHeader = []
             if allSameAttribute:
-                csvHeader = ['Source'] +  ['Target'] + list(grph.edges(data = True).__next__()[2].keys())
+                csvHeader = ['Source'] +  ['Target'] + list(next(iter(grph.edges(data = True)))[2].keys())
             else:
                 extraAttribs = set()
                 for eTuple in grph.edges(data = True):
@@ -305,7 +305,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     else:
         csvHeader = []
         if allSameAttribute:
-            csvHeader = ['ID'] + list(grph.nodes(data = True).__next__()[1].keys())
+            csvHeader = ['ID'] + list(next(iter(grph.nodes(data = True)))[1].keys())
         else:
             extraAttribs = set()
             for n, attribs in grph.nodes(data = True):
@@ -728,7 +728,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
             except KeyError:
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
         else:
-            if not targetGraph.Graph.has_edge(edgeNode1, edgeNode2):
+            if not targetGraph.has_edge(edgeNode1, edgeNode2):
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
 
 def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity'), makeString = True, sentenceString = False):
-- 
2.43.0


From 968e11cf29196e8552c7a905867f274d98658975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 03/73] fix: cooccurrenceCounts raises its TagError when no
 counted tag is given

---
 metaknowledge/mkCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 3c80257..caf7397 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -768,7 +768,7 @@ class CollectionWithIDs(Collection):
         if not isinstance(keyTag, str):
             raise TagError("'{}' is not a string it cannot be used as a tag.".format(keyTag))
         if len(countedTags) < 1:
-            TagError("You need to provide atleast one tag")
+            raise TagError("You need to provide atleast one tag")
         for tag in countedTags:
             if not isinstance(tag, str):
                 raise TagError("'{}' is not a string it cannot be used as a tag.".format(tag))
-- 
2.43.0


From c25945f7757b3b1897d0ab708310e0fa3f8b5d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 04/73] fix: edge attributes work in n-level, one-mode and
 multi-mode networks

---
 metaknowledge/mkCollection.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index caf7397..e4142b5 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -862,9 +862,15 @@ class CollectionWithIDs(Collection):
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
                 if edgeAttribute:
-                    edgeVals = [str(v) for v in R.get(edgeAttribute, [])]
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
+                    edgeVals = [str(v) for v in edgeVals]
                 if nodeAttribute:
-                    nodeVals = [str(v) for v in R.get(nodeAttribute, [])]
+                    nodeVals = R.get(nodeAttribute, [])
+                    if not isinstance(nodeVals, list):
+                        nodeVals = [nodeVals]
+                    nodeVals = [str(v) for v in nodeVals]
                 contents = []
                 for attr in modes:
                     tmpContents = R.get(attr, [])
@@ -885,10 +891,7 @@ class CollectionWithIDs(Collection):
                                         for edgeVal in edgeVals:
                                             if grph.has_edge(node1, node2, key = edgeVal):
                                                 if edgeWeight:
-                                                    for i, a in grph.edges[node1, node2].items():
-                                                        if a['key'] == edgeVal:
-                                                            grph[node1][node2][i]['weight'] += 1
-                                                            break
+                                                    grph.edges[node1, node2, edgeVal]['weight'] += 1
                                             else:
                                                 if edgeWeight:
                                                     attrDict = {'key' : edgeVal, 'weight' : 1}
@@ -1238,6 +1241,10 @@ class CollectionWithIDs(Collection):
                 if PBar:
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
+                if edgeAttribute is not None:
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
                 contents = []
                 for t in tags:
                     tmpVal = R.get(t)
@@ -1261,10 +1268,7 @@ class CollectionWithIDs(Collection):
                                     for edgeVal in edgeVals:
                                         if grph.has_edge(node1, node2, key = edgeVal):
                                             if edgeWeight:
-                                                for i, a in grph.edges[node1, node2].items():
-                                                    if a['key'] == edgeVal:
-                                                        grph[node1][node2][i]['weight'] += 1
-                                                        break
+                                                grph.edges[node1, node2, edgeVal]['weight'] += 1
                                         else:
                                             if edgeWeight:
                                                 attrDict = {'key' : edgeVal, 'weight' : 1}
-- 
2.43.0


From 6c129b0f7f77ece26f38580c3c09f273b1e4727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 05/73] fix: nodes of a network do not share one list of node
 attribute values

---
 metaknowledge/mkCollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index e4142b5..eead3ab 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -917,7 +917,7 @@ class CollectionWithIDs(Collection):
                                     try:
                                         currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.nodes[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = list(nodeVals)
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                             grph.nodes[node1][nodeAttribute].append(nodeValue)
@@ -934,7 +934,7 @@ class CollectionWithIDs(Collection):
                                 try:
                                     currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = list(nodeVals)
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                         grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
@@ -957,7 +957,7 @@ class CollectionWithIDs(Collection):
                             try:
                                 currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = list(nodeVals)
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                     grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
-- 
2.43.0


From f8d679b35242dc661a97efc8f63580157dbd6097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 06/73] fix: the first occurrence of a node without edges is
 counted

---
 metaknowledge/mkCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index eead3ab..9b10bf7 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1138,9 +1138,9 @@ class CollectionWithIDs(Collection):
                                     grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
-                                    grph.add_node(node1, type = tag1)
+                                    grph.add_node(node1, count = 1, type = tag1)
                                 else:
-                                    grph.add_node(node1)
+                                    grph.add_node(node1, count = 1)
                     else:
                         if not grph.has_node(node1):
                             if recordType:
@@ -1293,9 +1293,9 @@ class CollectionWithIDs(Collection):
                                         grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
-                                        grph.add_node(node1, type = vlst1[0])
+                                        grph.add_node(node1, count = 1, type = vlst1[0])
                                     else:
-                                        grph.add_node(node1)
+                                        grph.add_node(node1, count = 1)
                         else:
                             if not grph.has_node(node1):
                                 if recordType:
-- 
2.43.0


From 028c1d0045d3b21fda46ce13303cdf5c38adf4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 07/73] fix: multi-mode networks do not append a tag to a
 node's type on every occurrence

---
 metaknowledge/mkCollection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 9b10bf7..012c190 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1303,9 +1303,7 @@ class CollectionWithIDs(Collection):
                                 else:
                                     grph.add_node(node1)
                             elif recordType:
-                                try:
-                                    grph.nodes[node1]['type'] += vlst1[0]
-                                except KeyError:
+                                if 'type' not in grph.nodes[node1]:
                                     grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
-- 
2.43.0


From 38bed5e48b74f2b812d8301d5a70b6b46b6ac46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 08/73] fix: rankedSeries keeps the requested order in pandas
 mode

---
 metaknowledge/mkCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 012c190..f47d138 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -655,6 +655,8 @@ class CollectionWithIDs(Collection):
                         retList.append((valString, currentRank))
             if not greatestFirst:
                 retList.reverse()
+                for column in panDict.values():
+                    column.reverse()
             if pandasMode:
                 return panDict
             else:
-- 
2.43.0


From 04575bb278a19c1adcde38be1114abc67bf3430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 09/73] fix: the set operators keep the errors of both operands

---
 metaknowledge/mkCollection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index f47d138..8f12de8 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -237,6 +237,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection | other._collection, name = '{} | {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -247,6 +248,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection & other._collection, name = '{} & {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -257,6 +259,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection - other._collection, name = '{} - {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -267,6 +270,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection ^ other._collection, name = '{} ^ {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
-- 
2.43.0


From 5e666b9765bdeb3805a02d6ca5251fe3451fb4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 10/73] fix: collections made from an iterable read it once and
 know the types they hold

---
 metaknowledge/grantCollection.py  | 4 +++-
 metaknowledge/recordCollection.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 8428c87..95ead52 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -123,10 +123,12 @@ class GrantCollection(CollectionWithIDs):
                 PBar.updateVal(.5, "GrantCollection started from {}".format(type(inGrants).__name__))
                 if not name:
                     name = "Grants-from-a-{}".format(type(inGrants).__name__)
+                grantsSet = set()
                 for G in inGrants:
                     if not isinstance(G, Grant):
                         raise GrantCollectionException("A GrantCollection cannot be created from a Iterable containing {}".format(G))
-                grantsSet = set(inGrants)
+                    grantsSet.add(G)
+                    grantTypes.add(type(G).__name__)
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index af0e417..5757c9b 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -151,10 +151,12 @@ class RecordCollection(CollectionWithIDs):
                     raise RCTypeError("'{}' is not a path to a directory or file. Strings cannot be used to initialize RecordCollections".format(inCollection))
             elif isinstance(inCollection, collections.abc.Iterable):
                 PBar.updateVal(.5, "RecordCollection from an iterable started")
+                recordsSet = set()
                 for R in inCollection:
                     if not isinstance(R, Record):
                         raise RCTypeError("RecordCollections can only contain Records, '{}' is not a valid part of an input iterable.".format(R))
-                recordsSet = set(inCollection)
+                    recordsSet.add(R)
+                    recordTypes.add(type(R).__name__)
             else:
                 raise RCTypeError("A RecordCollection cannot be created from {}.".format(inCollection))
             CollectionWithIDs.__init__(self, recordsSet, Record, recordTypes, name, bad, errors)
-- 
2.43.0


From 6c0b3c82d68c9ac8c723f28b62c2d2bbb814c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 11/73] fix: GrantCollection accepts cached for inputs that are
 not directories

---
 metaknowledge/grantCollection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 95ead52..b98f0a2 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -31,6 +31,8 @@ class GrantCollection(CollectionWithIDs):
             errors = {}
             name = name
             grantTypes = set()
+            if cached:
+                cacheName = None
 
             if inGrants is None:
                 PBar.updateVal(.5, "Empty GrantCollection created")
@@ -132,7 +134,7 @@ class GrantCollection(CollectionWithIDs):
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
-            if cached:
+            if cached and cacheName is not None:
                 PBar.updateVal(1, "Writing GrantCollection cache to {}".format(cacheName))
                 self._createCache(cacheName, flist, name, extension)
             try:
-- 
2.43.0


From 7a56c0d741bfda46b09a00657cd05cb8a5968884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 12/73] fix: GrantCollection does not read its own cache file
 as a grant file

---
 metaknowledge/grantCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index b98f0a2..1741eb0 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -69,7 +69,7 @@ class GrantCollection(CollectionWithIDs):
                     flist = []
                     for f in os.listdir(inGrants):
                         fullF = os.path.join(os.path.abspath(inGrants), f)
-                        if fullF.endswith(extension) and os.path.isfile(fullF):
+                        if fullF.endswith(extension) and not fullF.endswith('mkGrantDirCache') and os.path.isfile(fullF):
                             flist.append(fullF)
                     if cached:
                         cacheName = os.path.join(inGrants, '{}.[{}].mkGrantDirCache'.format(os.path.basename(os.path.abspath(inGrants)), extension))
-- 
2.43.0


From 9b3057ebfaf4a8b3c934f1b4631455ccce908667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 13/73] fix: a damaged cache file is discarded instead of
 raising

---
 metaknowledge/mkCollection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 8f12de8..9abf688 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -372,7 +372,8 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             with open(cacheFile, 'rb') as f:
                 try:
                     dat, RC = pickle.load(f)
-                except pickle.PickleError as e:
+                except Exception as e:
+                    # A damaged pickle can raise almost anything, not only a PickleError
                     raise cacheError("pickle Error: {}".format(e))
             if dat["metaknowledge Version"] != __version__:
                 raise cacheError("mk version mismatch")
-- 
2.43.0


From b7d2c89da3a209d536b76a380f89e2f3f59cb54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 14/73] fix: writeCSV, makeDict and forNLP do not change the
 caller's lists of tags

---
 metaknowledge/recordCollection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 5757c9b..26e9fad 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -295,10 +295,13 @@ class RecordCollection(CollectionWithIDs):
         """
         if firstTags is None:
             firstTags = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
+        else:
+            firstTags = list(firstTags)
         for i in range(len(firstTags)):
             if firstTags[i] in fullToTagDict:
                 firstTags[i] = fullToTagDict[firstTags[i]]
         if onlyTheseTags:
+            onlyTheseTags = list(onlyTheseTags)
             for i in range(len(onlyTheseTags)):
                 if onlyTheseTags[i] in fullToTagDict:
                     onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
@@ -655,9 +658,7 @@ class RecordCollection(CollectionWithIDs):
         if extraColumns is None:
             extraColumns = []
         else:
-            for builtinColumn in ['id', 'year', 'title', 'keywords', 'abstract']:
-                if builtinColumn in extraColumns:
-                    extraColumns.remove(builtinColumn)
+            extraColumns = [c for c in extraColumns if c not in ['id', 'year', 'title', 'keywords', 'abstract']]
         for column in extraColumns:
             retDict[column] = []
         with _ProgressBar(*progArgs, **progKwargs) as PBar:
@@ -723,6 +724,7 @@ class RecordCollection(CollectionWithIDs):
         > Default `True`, if `True` adds the number of authors as the column `'numAuthors'`.
         """
         if onlyTheseTags:
+            onlyTheseTags = list(onlyTheseTags)
             for i in range(len(onlyTheseTags)):
                 if onlyTheseTags[i] in fullToTagDict:
                     onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
-- 
2.43.0


From 5cb368426751116ea98ca5bfba3f78d765d77874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 15/73] fix: writeBib skips bad records of every type

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 26e9fad..99c3d0a 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -416,7 +416,7 @@ class RecordCollection(CollectionWithIDs):
             try:
                 f.write('\n\n')
                 f.write(R.bibString(maxLength =  maxStringLength, WOSMode = wosMode, restrictedOutput = reducedOutput, niceID = niceIDs))
-            except BadWOSRecord:
+            except BadRecord:
                 pass
             except AttributeError:
                 raise RecordsNotCompatible("The Record '{}', with ID '{}' does not support writing to bibtext files.".format(R, R.id))
-- 
2.43.0


From 9727d6fd73b7ab0b4062705937e08719864da599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 16/73] fix: localCitesOf accepts a Record

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 99c3d0a..5c8902b 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1478,7 +1478,7 @@ class RecordCollection(CollectionWithIDs):
         localCites = []
         if isinstance(rec, Record):
             recCite = rec.createCitation()
-        if isinstance(rec, str):
+        elif isinstance(rec, str):
             try:
                 recCite = self.getID(rec)
             except ValueError:
-- 
2.43.0


From 367937d75d6166d60e689224b3a0477b8a9fa731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 17/73] fix: citeFilter looks past citations that lack the
 field

---
 metaknowledge/recordCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 5c8902b..ba9fff1 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1563,7 +1563,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.journal:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'year':
                     for cite in R.get('citations'):
@@ -1579,7 +1579,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.V:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'P':
                     for cite in R.get('citations'):
@@ -1587,7 +1587,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.P:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'misc':
                     for cite in R.get('citations'):
@@ -1595,7 +1595,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.misc:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'anonymous':
                     for cite in R.get('citations'):
-- 
2.43.0


From e40ddfe2fdf7b60954e195a3af7ed8a1836df162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 18/73] fix: localCiteStats reports progress for every type of
 Record

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index ba9fff1..8d481eb 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1435,7 +1435,7 @@ class RecordCollection(CollectionWithIDs):
                 rCites = R.get('citations')
                 if PBar:
                     count += 1
-                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.UT))
+                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.id))
                 if rCites:
                     for c in rCites:
                         if keyType == keyTypesLst[0]:
-- 
2.43.0


From c7fb930994b0a5e5c692c572f81ce241f11fcd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 19/73] fix: citation edges follow recordToCite for every node
 type and weighting

---
 metaknowledge/recordCollection.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 8d481eb..5aadc49 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1673,8 +1673,11 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                             grph.add_edge(hID, nID, weight=1, yearDiff=yearDiff)
                         else:
                             grph.add_edge(nID, hID, weight=1, yearDiff=yearDiff)
-                elif nID not in grph[hID]:
-                    addedEdges.append((hID, nID))
+                elif recordToCite:
+                    if nID not in grph[hID]:
+                        addedEdges.append((hID, nID))
+                elif hID not in grph[nID]:
+                    addedEdges.append((nID, hID))
 
             elif weighted:
                 try:
@@ -1686,9 +1689,12 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                     if recordToCite:
                         grph.add_edge(hID, nID, weight=1)
                     else:
-                        grph.add_edge(hID, nID, weight=1)
-            elif nID not in grph[hID]:
-                addedEdges.append((hID, nID, {yearDiff: yearDiff}))
+                        grph.add_edge(nID, hID, weight=1)
+            elif recordToCite:
+                if nID not in grph[hID]:
+                    addedEdges.append((hID, nID))
+            elif hID not in grph[nID]:
+                addedEdges.append((nID, hID))
     elif len(idList) > 1:
         for i, outerID in enumerate(idList):
             for innerID in idList[i + 1:]:
-- 
2.43.0


From ecae103d701bcdde4516338fa655070f821bf417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 20/73] fix: co-author networks count an author once per record

---
 metaknowledge/recordCollection.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 5aadc49..ffc5de9 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1027,12 +1027,11 @@ class RecordCollection(CollectionWithIDs):
                     authsList = R.get('authorsFull', [])
                 if authsList:
                     authsList = list(authsList)
-                    detailedInfo = attributeMaker(R)
                     if citeProfile:
                         citesLst = R.get('citations', [])
-                    for i, auth1 in enumerate(authsList):
+                    for auth1 in authsList:
                         if auth1 not in grph:
-                            grph.add_node(auth1, **detailedInfo.copy())
+                            grph.add_node(auth1, **attributeMaker(R))
                         elif count:
                             grph.nodes[auth1]['count'] += 1
                         if citeProfile:
@@ -1041,17 +1040,8 @@ class RecordCollection(CollectionWithIDs):
                                     grph.nodes[auth1]['citeProfile'][c] += 1
                                 except KeyError:
                                     grph.nodes[auth1]['citeProfile'][c] = 1
+                    for i, auth1 in enumerate(authsList):
                         for auth2 in authsList[i + 1:]:
-                            if auth2 not in grph:
-                                grph.add_node(auth2, **detailedInfo.copy())
-                            elif count:
-                                grph.nodes[auth2]['count'] += 1
-                            if citeProfile:
-                                for c in citesLst:
-                                    try:
-                                        grph.nodes[auth2]['citeProfile'][c] += 1
-                                    except KeyError:
-                                        grph.nodes[auth2]['citeProfile'][c] = 1
                             if grph.has_edge(auth1, auth2) and weighted:
                                 grph.edges[auth1, auth2]['weight'] += 1
                             elif weighted:
-- 
2.43.0


From fb27df5e5d4d40be58be888d04af0eacc6c75269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 21/73] fix: co-investigator networks count an investigator
 once per grant

---
 metaknowledge/grantCollection.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 1741eb0..ef7cce3 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -195,7 +195,7 @@ class GrantCollection(CollectionWithIDs):
                 else:
                     investList = G.getInvestigators(tags = targetTags, seperator = tagSeperator, _getTag = True)
                 if len(investList) > 1:
-                    for i, invest1 in enumerate(investList):
+                    for invest1 in investList:
                         if invest1[0] not in grph:
                             if count:
                                 grph.add_node(invest1[0], count = 1, field = invest1[1])
@@ -203,14 +203,8 @@ class GrantCollection(CollectionWithIDs):
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
                             grph.nodes[invest1[0]]['count'] += 1
+                    for i, invest1 in enumerate(investList):
                         for invest2 in investList[i + 1:]:
-                            if invest2[0] not in grph:
-                                if count:
-                                    grph.add_node(invest2[0], count = 1, field = invest2[1])
-                                else:
-                                    grph.add_node(invest2[0], field = invest2[1])
-                            elif count:
-                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
-- 
2.43.0


From 8579e36741ac3f3b6e7067c6e08098086019a383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 22/73] fix: labelled weighted edges of a diffusion graph are
 counted per label

---
 metaknowledge/diffusion.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index b9ce40a..a02e164 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -114,13 +114,9 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                                     for edgeVal in (str(ev) for ev in edgeVals):
                                         if weighted:
                                             if workingGraph.has_edge(sVal, val, key = edgeVal):
-                                                for i, a in workingGraph[sVal][val].items():
-                                                    if a['key'] == edgeVal:
-                                                        workingGraph[sVal][val][i]['weight'] += 1
-                                                        break
+                                                workingGraph[sVal][val][edgeVal]['weight'] += 1
                                             else:
-                                                attrDict = {'key' : edgeVal, 'weight' : 1}
-                                                workingGraph.add_edge(sVal, val, attr_dict = attrDict)
+                                                workingGraph.add_edge(sVal, val, key = edgeVal, weight = 1)
                                         else:
                                             if not workingGraph.has_edge(sVal, val, key = edgeVal):
                                                 workingGraph.add_edge(sVal, val, key = edgeVal)
-- 
2.43.0


From 1b8be2309a50263122a49d67f6e223d85f905838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 23/73] fix: diffusionCount compares the counts of the same
 extra value

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index a02e164..9ab786a 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -323,7 +323,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                         extraValueLst.append(extraVal)
                         if compareCounts:
                             try:
-                                locLst.append(localCounts[R][extraValue])
+                                locLst.append(localCounts[R][extraVal])
                             except KeyError:
                                 locLst.append(0)
                 else:
-- 
2.43.0


From 264487af6fd8a79b935be76ea8b4fcd2445062ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 24/73] fix: diffusionCount compares counts made with the same
 options

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 9ab786a..0101d78 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -266,7 +266,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     sourceCounts[RsourceVals] += 1
     if compareCounts:
-        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, _ProgBar = PBar)
+        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, useAllAuthors = useAllAuthors, _ProgBar = PBar, extraMapping = extraMapping)
     if PBar and not _ProgBar:
         PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
     if pandasFriendly:
-- 
2.43.0


From 806898070baec8a8884363be28861ce3b49fe661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 25/73] fix: diffusionAddCountsFromSource does not empty the
 caller's counts

---
 metaknowledge/diffusion.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 0101d78..a3368e1 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -404,14 +404,7 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         try:
             if not isinstance(countsDict.keys().__iter__().__next__(), str):
                 PBar.updateVal(.5, "Prepping the counts")
-                newCountsDict = {}
-                while True:
-                    try:
-                        k, v = countsDict.popitem()
-                    except KeyError:
-                        break
-                    newCountsDict[str(k)] = v
-                countsDict = newCountsDict
+                countsDict = {str(k) : v for k, v in countsDict.items()}
         except StopIteration:
             pass
         count = 0
-- 
2.43.0


From d3cc639825b857111dea6c12fccd6c0bc66dd9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 26/73] fix: csvAndLinesReader ends with the file instead of
 raising RuntimeError

---
 metaknowledge/grants/baseGrant.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c0c443d..c2e8470 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -119,13 +119,10 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     'currentLineString' : '',
     }
     def readerWithSideEffects(target, datDict):
-        while True:
-            datDict['currentLineNum'], datDict['currentLineString'] = next(target)
+        for datDict['currentLineNum'], datDict['currentLineString'] in target:
             yield datDict['currentLineString']
     reader = csv.DictReader(readerWithSideEffects(enumeratedFile, currentData), *csvArgs, **csvKwargs)
-    readerIter = reader.__iter__()
-    while True:
-        row = next(readerIter)
+    for row in reader:
         yield currentData['currentLineNum'], currentData['currentLineString'], row
 
 class FallbackGrant(Grant):
-- 
2.43.0


From 080dc268d810d3f60fe3497bf91066b2f4c74ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 27/73] fix: writeEdgeList works without extra information

---
 metaknowledge/graphHelpers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index d35fdc4..bcc0339 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -253,8 +253,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                 count += 1
                 if count % 1000 == 0:
                     PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
-                eDict['Source'] = e[0]
-                eDict['Target'] = e[1]
+                eDict = {'Source' : e[0], 'Target' : e[1]}
                 try:
                     outFile.writerow(eDict)
                 except UnicodeEncodeError:
-- 
2.43.0


From 89bb0f2e1b67625aca5c580027ce98c2204e24da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 28/73] fix: writeNodeAttributeFile expands the name of its
 file whatever the graph

---
 metaknowledge/graphHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index bcc0339..47bee4f 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -318,7 +318,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
             csvHeader = ['ID'] + list(extraAttribs)
         count = 0
         PBar.updateVal(.10, "Opening '{}'".format(name))
-        f = open(name, 'w', newline = '')
+        f = open(os.path.expanduser(os.path.abspath(name)), 'w', newline = '')
         outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting = csv.QUOTE_NONNUMERIC)
         outFile.writeheader()
         for n in grph.nodes(data = True):
-- 
2.43.0


From d2bc2c1ce88058393d26c88034ac2ffe403db6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 29/73] fix: nameStringGender raises its GenderException

---
 metaknowledge/genders/nameGender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/genders/nameGender.py b/metaknowledge/genders/nameGender.py
index 2bc9dac..db0fdf7 100644
--- a/metaknowledge/genders/nameGender.py
+++ b/metaknowledge/genders/nameGender.py
@@ -60,7 +60,7 @@ def nameStringGender(s, noExcept = False):
         if noExcept:
             return 'Unknown'
         else:
-            return GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
+            raise GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
     if mappingDict is None:
         mappingDict = getMapping()
     return mappingDict.get(first, 'Unknown')
-- 
2.43.0


From f83ffd7fc27395d6f2ce4a80c062eaf7648d4fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 30/73] fix: tagToFull raises a KeyError for unknown tags

---
 metaknowledge/WOS/tagProcessing/funcDicts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/WOS/tagProcessing/funcDicts.py b/metaknowledge/WOS/tagProcessing/funcDicts.py
index 740dbf7..af7f4ef 100644
--- a/metaknowledge/WOS/tagProcessing/funcDicts.py
+++ b/metaknowledge/WOS/tagProcessing/funcDicts.py
@@ -35,7 +35,7 @@ def tagToFull(tag):
     try:
         return tagToFullDict[tag]
     except KeyError:
-        raise("Tag not in list of known tags")
+        raise KeyError("Tag not in list of known tags")
 
 
 def normalizeToTag(val):
-- 
2.43.0


From f41b3793d8ab7ed9c6de127582d3bd5717b1e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 31/73] fix: getInvestigators and getInstitutions do not change
 the caller's tags

---
 metaknowledge/grants/nsercGrant.py | 4 ++++
 metaknowledge/grants/nsfGrant.py   | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 75ff383..849f34a 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -38,6 +38,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'name-' in k.lower() and k not in tags:
                 tags.append(k)
@@ -56,6 +58,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'institution' in k.lower() and k not in tags:
                 tags.append(k)
diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index 0a4953e..fcd1399 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -33,7 +33,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Investigator', tags]
         else:
-            tags.append('Investigator')
+            tags = list(tags) + ['Investigator']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
     def getInstitutions(self, tags = None, seperator = ";", _getTag = False):
@@ -50,7 +50,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Institution', tags]
         else:
-            tags.append('Institution')
+            tags = list(tags) + ['Institution']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
 def isNSFfile(fileName, useFileName = True):
-- 
2.43.0


From a43ccbc4232d49897e40b0c11f08ee1932031907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 32/73] fix: a WOS record starting with a continuation line is
 reported as malformed

---
 metaknowledge/WOS/recordWOS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index a26acf3..85ef80a 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -182,6 +182,8 @@ def recordParser(paper):
             #Field tag longer than 2 or offset in some way
             raise BadWOSFile("Field tag not formed correctly on line " + str(l[0]) + " : " + l[1])
         elif '   ' in l[1][:3]: #the string is three spaces in row
+            if len(tagList) < 1:
+                raise BadWOSFile("Continuation of a field before any field on line " + str(l[0]) + " : " + l[1])
             #No new tag append line to current tag (last tag in tagList)
             tagList[-1][1].append(l[1][3:-1])
         else:
-- 
2.43.0


From 0613a23eb621551b31aab1822b186ccfa22d7214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 33/73] fix: malformed lines of Medline records are reported as
 such

---
 metaknowledge/medline/recordMedline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index ca077af..30cd8de 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -108,7 +108,7 @@ def medlineRecordParser(record):
     for lineNum, line in record:
         tmptag = line[:4].rstrip()
         contents = line[6:-1]
-        if tmptag.isalpha() and line[4] == '-':
+        if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
             if tag == 'AU':
                 mostRecentAuthor = contents
@@ -118,7 +118,7 @@ def medlineRecordParser(record):
                 tagDict[tag].append(contents)
             except KeyError:
                 tagDict[tag] = [contents]
-        elif line[:6] == '      ':
+        elif line[:6] == '      ' and tag in tagDict:
             tagDict[tag][-1] += '\n' + line[6:-1]
         elif line == '\n':
             break
-- 
2.43.0


From d0971b44e99aca8d908146af67849053fcd44f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 34/73] fix: malformed ProQuest records and numberings are
 reported as such

---
 metaknowledge/proquest/proQuestHandlers.py | 2 +-
 metaknowledge/proquest/recordProQuest.py   | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/proquest/proQuestHandlers.py b/metaknowledge/proquest/proQuestHandlers.py
index b32a70c..6250845 100644
--- a/metaknowledge/proquest/proQuestHandlers.py
+++ b/metaknowledge/proquest/proQuestHandlers.py
@@ -94,7 +94,7 @@ def proQuestParser(proFile):
                     #Parsing failed
                     error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}. It is likely that the seperators between the records are incorrect".format(proFile, lineNum))
                     raise StopIteration
-    except (UnicodeDecodeError, StopIteration, ValueError) as e:
+    except (UnicodeDecodeError, StopIteration, ValueError, KeyError) as e:
         if error is None:
             error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}.\nThe error was: '{}'".format(proFile, lineNum, e))
     return recSet, error
diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index e983fe3..8138ca8 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -89,7 +89,10 @@ def proQuestRecordParser(enRecordFile, recNum):
     tagDict = collections.OrderedDict()
     currentEntry = 'Name'
     while True:
-        lineNum, line = next(enRecordFile)
+        try:
+            lineNum, line = next(enRecordFile)
+        except StopIteration:
+            raise BadProQuestRecord("The record ends before its separator")
         if line == '_' * 60 + '\n':
             break
         elif line == '\n':
@@ -103,6 +106,8 @@ def proQuestRecordParser(enRecordFile, recNum):
             tagDict[currentEntry] = [': '.join(splitLine[1:]).rstrip()]
             if currentEntry == 'Author':
                 currentEntry = 'url'
-        else:
+        elif currentEntry in tagDict:
             tagDict[currentEntry].append(line.rstrip())
+        else:
+            raise BadProQuestRecord("Tag not formed correctly on line {}: '{}'".format(lineNum, line))
     return tagDict
-- 
2.43.0


From bdd93aa7d18e7f2119e0e48f1445458e816c6794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 35/73] fix: files the csv module cannot read are not grant
 files

---
 metaknowledge/grants/cihrGrant.py  | 2 +-
 metaknowledge/grants/nsercGrant.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index 7ff9f09..877409e 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -32,7 +32,7 @@ def isCIHRfile(fileName, useFileName = True):
             for row in reader:
                 if 'PI Names' not in row:
                     return False
-    except (StopIteration, UnicodeDecodeError):
+    except (StopIteration, UnicodeDecodeError, csv.Error):
         return False
     else:
         return True
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 849f34a..0ec58f3 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -78,7 +78,7 @@ def isNSERCfile(fileName, useFileName = True):
                     return False
             if length < 1:
                 return False
-    except (StopIteration, UnicodeDecodeError, KeyError):
+    except (StopIteration, UnicodeDecodeError, KeyError, TypeError, csv.Error):
         return False
     else:
         return True
-- 
2.43.0


From 87333ee83fe388d2913dfa9a8f7081058e5da00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 36/73] fix: Medline and Scopus fields without a processing
 function can be looked up

---
 metaknowledge/medline/recordMedline.py | 2 +-
 metaknowledge/scopus/recordScopus.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 30cd8de..9eb94c5 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -56,7 +56,7 @@ class MedlineRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return medlineTagToFunc[tag]
+        return medlineTagToFunc.get(tag, lambda x : x)
 
     def specialFuncs(self, key):
         #This will usually raise a key error that needs to be caught higher up
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index a349075..11d3656 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -93,7 +93,7 @@ class ScopusRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return scopusTagToFunction[tag]
+        return scopusTagToFunction.get(tag, lambda x : x)
 
     def specialFuncs(self, key):
         return scopusSpecialTagToFunc[key](self)
-- 
2.43.0


From 1805ebba95ec98174484d1bc2fbc9cc011ae30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 37/73] fix: authorsFull of a ProQuest record is its author

---
 metaknowledge/proquest/tagProcessing/specialFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/proquest/tagProcessing/specialFunctions.py b/metaknowledge/proquest/tagProcessing/specialFunctions.py
index b694d22..e5a9b47 100644
--- a/metaknowledge/proquest/tagProcessing/specialFunctions.py
+++ b/metaknowledge/proquest/tagProcessing/specialFunctions.py
@@ -8,7 +8,7 @@ proQuestSpecialTagToFunc = {
     'keywords' : lambda R : R['Identifier / keyword'],
     'abstract' : lambda R : R['Abstract'],
     #'citations' : '',
-    'authorsFull' : lambda R : 'Author',
+    'authorsFull' : lambda R : R['Author'],
     #'volume' : '',
     'year' : lambda R : R['Degree date'],
     #'j9' : '',
-- 
2.43.0


From c6bd8742492218834e1f6ee1cf1b4dce25651580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 38/73] fix: the id field of a Scopus record is its id

---
 metaknowledge/scopus/tagProcessing/specialFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/tagProcessing/specialFunctions.py b/metaknowledge/scopus/tagProcessing/specialFunctions.py
index c1f4c4c..4726acc 100644
--- a/metaknowledge/scopus/tagProcessing/specialFunctions.py
+++ b/metaknowledge/scopus/tagProcessing/specialFunctions.py
@@ -14,5 +14,5 @@ scopusSpecialTagToFunc = {
     'journal' : lambda R : R['Source title'],
     'keywords' : lambda R : R['Index Keywords'],
     'abstract' : lambda R : R['Abstract'],
-    'id' : lambda R : R['EID'],
+    'id' : lambda R : R.id,
 }
-- 
2.43.0


From fa582a70fcc6a8c7695db4f0a37b76610aa3b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 39/73] fix: saved journal abbreviation pages are closed

---
 metaknowledge/journalAbbreviations/backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index fb94759..4e33838 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -50,8 +50,8 @@ def _j9SaveCurrent(sDir = '.'):
         os.chdir(dname)
     for urlID, urlString in j9urlGenerator(nameDict = True).items():
         fname = "{}_abrvjt.html".format(urlID)
-        f = open(fname, 'wb')
-        f.write(urllib.request.urlopen(urlString).read())
+        with open(fname, 'wb') as f:
+            f.write(urllib.request.urlopen(urlString).read())
 
 def _getDict(j9Page):
     """Parses a Journal Title Abbreviations page
-- 
2.43.0


From 4317ac301bb2bfc2c06c3bddbd68d224ed11bc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 40/73] fix: a record dropped from a WOS file is reported

---
 metaknowledge/WOS/wosHandlers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 69c7da5..1452d75 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -73,6 +73,7 @@ def wosParser(isifile):
                     try:
                         plst.add(WOSRecord(itertools.chain([line], f), sFile = isifile, sLine = line[0]))
                     except BadWOSFile as e:
+                        error = e
                         try:
                             s = f.__next__()[1]
                             while s[:2] != 'ER':
-- 
2.43.0


From a94b1db5993341eff7300e165e2bbb5554c4668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:13 +0000
Subject: [PATCH 41/73] fix: writeCSV with an empty splitByTag used names it
 never bound

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index ffc5de9..65c5587 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -326,7 +326,7 @@ class RecordCollection(CollectionWithIDs):
             csvWriterFields = retrievedFields
         if genderCounts:
             csvWriterFields += ['num-Male', 'num-Female', 'num-Unknown']
-        if splitByTag is None:
+        if not splitByTag:
             f = open(baseFileName, mode = 'w', encoding = 'utf-8', newline = '')
             csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
             csvWriter.writeheader()
-- 
2.43.0


From b4c966835f9d2a261389cc70461156470f5916e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:13 +0000
Subject: [PATCH 42/73] fix: localCitesOf named an unbound variable in its
 error message

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 65c5587..5bcaece 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1475,7 +1475,7 @@ class RecordCollection(CollectionWithIDs):
                 try:
                     recCite = Citation(rec)
                 except AttributeError:
-                    raise ValueError("{} is not a valid WOS string or a valid citation string".format(recCite))
+                    raise ValueError("{} is not a valid WOS string or a valid citation string".format(rec))
             else:
                 if recCite is None:
                     return RecordCollection(inCollection = localCites, name = "Records_citing_{}".format(rec), quietStart = True)
-- 
2.43.0


From 277dda7e1c213ef473ed8dda186fe4535ce236c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:13 +0000
Subject: [PATCH 43/73] fix: _extractTagged read an attribute records do not
 have

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 5bcaece..d488667 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1344,9 +1344,9 @@ class RecordCollection(CollectionWithIDs):
     def _extractTagged(self, taglist):
         recordsWithTags = set()
         for R in self:
+            hasTags = True
             for t in taglist:
-                hasTags = True
-                if t not in R.tags:
+                if t not in R:
                     hasTags = False
                     break
             if hasTags:
-- 
2.43.0


From 738eb27e8a52e12ca65c64f57096a37823949a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:00 +0000
Subject: [PATCH 44/73] fix: docs generator used inspect.formatargspec, which
 Python 3.11 removed

---
 metaknowledge/bin/metaknowledgeDocsGen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeDocsGen.py b/metaknowledge/bin/metaknowledgeDocsGen.py
index 4836239..02e6e3b 100644
--- a/metaknowledge/bin/metaknowledgeDocsGen.py
+++ b/metaknowledge/bin/metaknowledgeDocsGen.py
@@ -119,7 +119,7 @@ def cleanargs(obj, basic = False, isClass = False):
             argClasses.append(n)
         argStr = ', '.join(argClasses)
     else:
-        argStr = inspect.formatargspec(*inspect.getfullargspec(obj))
+        argStr = str(inspect.signature(obj))
         argStr =  argStr.replace(", *args", '').replace(", **kwargs", '').replace('self, ', '').replace('self', '')[1:-1]
     if len(argStr) > 0:
         argStr = ', '.join([a for a in argStr.split(', ') if a[0] != '_'])
-- 
2.43.0


From 5f6eaae53c95f3c1e1460c377540b8a087900035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:00 +0000
Subject: [PATCH 45/73] fix: docs generator looked for the tag tables where
 they are not

---
 metaknowledge/bin/metaknowledgeDocsGen.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeDocsGen.py b/metaknowledge/bin/metaknowledgeDocsGen.py
index 02e6e3b..0b523ba 100644
--- a/metaknowledge/bin/metaknowledgeDocsGen.py
+++ b/metaknowledge/bin/metaknowledgeDocsGen.py
@@ -6,7 +6,8 @@ import argparse
 import os
 import time
 import metaknowledge
-import metaknowledge.WOS.tagProcessing
+import metaknowledge.WOS.tagProcessing.tagFunctions
+import metaknowledge.WOS.tagProcessing.funcDicts
 import importlib
 import re
 
@@ -284,8 +285,8 @@ def writeModuleFile(mod, targetFile = None, singleFile = False):
         for fn in funcs:
             writeFunc(fn, f, prefix = "{}.".format(mod))
     else:
-        for fn in metaknowledge.WOS.tagProcessing.tagToFunc.items():
-            writeFunc((metaknowledge.tagToFull(fn[0]), fn[1]), f, prefix = "{}.".format(mod))
+        for fn in metaknowledge.WOS.tagProcessing.tagFunctions.tagToFunc.items():
+            writeFunc((metaknowledge.WOS.tagProcessing.funcDicts.tagToFull(fn[0]), fn[1]), f, prefix = "{}.".format(mod))
     if targetFile is None:
         f.write("\n{% include docsFooter.md %}")
         f.close()
-- 
2.43.0


From f7f6927695a186fdf11bf273bc3267e2664b527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:00 +0000
Subject: [PATCH 46/73] fix: addToDB of a citation without a journal died of a
 missing attribute

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 13557e8..ac70b25 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -356,7 +356,7 @@ class Citation(collections.abc.Hashable):
             else:
                 d = {self.journal : manualName}
             addToDB(abbr = d, dbname = manualDB)
-        except KeyError:
+        except (KeyError, AttributeError):
             raise KeyError("This citation does not have a journal field.")
         else:
             abbrevDict.update(d)
-- 
2.43.0


From 7cf0d80ff2eeb21844c604e2832160b39eb7e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 47/73] fix: networkCitation documented dropAnon as on by
 default

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index d488667..a14a9e5 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1181,7 +1181,7 @@ class RecordCollection(CollectionWithIDs):
 
         _dropAnon_ : `optional [bool]`
 
-        > default `True`, if `True` citations labeled anonymous are removed from the network
+        > default `False`, if `True` citations labeled anonymous are removed from the network
 
         _nodeInfo_ : `optional [bool]`
 
-- 
2.43.0


From fba6e454d114f336a3aab1774ca8d8fe0f46ba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 48/73] fix: isWOSFile documented another number of checked
 lines

---
 metaknowledge/WOS/wosHandlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 1452d75..b34016a 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -14,7 +14,7 @@ def isWOSFile(infile, checkedLines = 3):
 
     _checkedLines_ : `optional [int]`
 
-    > default 2, the number of lines to check for the header
+    > default 3, the number of lines to check for the header
 
     # Returns
 
-- 
2.43.0


From 70b61b8a1edc3bd02a06ec69770c6e1a52521a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 49/73] fix: getj9dict rebuilt another database than the one it
 was asked for

---
 metaknowledge/journalAbbreviations/backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 4e33838..7257ff2 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -155,7 +155,7 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
                 for k, v in db.items():
                     retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
     except JournalDataBaseError:
-        updatej9DB()
+        updatej9DB(dbname = dbname)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
     try:
         if returnDict == 'both' or returnDict == 'manual':
@@ -167,7 +167,7 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
                 if returnDict == 'manual':
                     raise JournalDataBaseError("Manual J9 Database ({0}) missing, to create it run addToDB(dbname = {0})".format(manualDB))
     except JournalDataBaseError:
-        updatej9DB(dbname = manualDB)
+        addToDB(dbname = manualDB)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
     return retDict
 
-- 
2.43.0


From e3ac50e2d6e3e85e64c1f1bf80cc73a55fb22a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 50/73] fix: docs generator lost the single file setting for
 functions

---
 metaknowledge/bin/metaknowledgeDocsGen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeDocsGen.py b/metaknowledge/bin/metaknowledgeDocsGen.py
index 0b523ba..58f96e6 100644
--- a/metaknowledge/bin/metaknowledgeDocsGen.py
+++ b/metaknowledge/bin/metaknowledgeDocsGen.py
@@ -249,7 +249,7 @@ def proccessClass(cls, f, singleFile = False, exceptMode = False):
     if len(funcs) > 0 and not exceptMode:
         f.write(makeTable(funcs, prefix = cls[0], header = "\nThe {} class has the following methods:".format(cls[0])))
         for m in funcs:
-            writeFunc(m, f, prefix = '{}.'.format(cls[0], singleFile = singleFile))
+            writeFunc(m, f, prefix = '{}.'.format(cls[0]), singleFile = singleFile)
 
 def writeClassFile(name, typ, targetFile = None, singleFile = False):
     fname = docsPrefix + "{}.md".format(name)
@@ -283,10 +283,10 @@ def writeModuleFile(mod, targetFile = None, singleFile = False):
     if mod != "tagProcessing":
         f.write(makeTable(funcs, prefix = mod, header = '<a name="{0}">The <a href="#{0}"><u>{0}</u></a> module provides the following functions:</a>'.format(mod)))
         for fn in funcs:
-            writeFunc(fn, f, prefix = "{}.".format(mod))
+            writeFunc(fn, f, prefix = "{}.".format(mod), singleFile = singleFile)
     else:
         for fn in metaknowledge.WOS.tagProcessing.tagFunctions.tagToFunc.items():
-            writeFunc((metaknowledge.WOS.tagProcessing.funcDicts.tagToFull(fn[0]), fn[1]), f, prefix = "{}.".format(mod))
+            writeFunc((metaknowledge.WOS.tagProcessing.funcDicts.tagToFull(fn[0]), fn[1]), f, prefix = "{}.".format(mod), singleFile = singleFile)
     if targetFile is None:
         f.write("\n{% include docsFooter.md %}")
         f.close()
@@ -307,7 +307,7 @@ def writeMainBody(funcs, vrs, exceptions, targetFile = None, singleFile = False)
     f.write(makeTable(funcs, header = "The functions provided by <i>metaknowledge</i> are:"))
     f.write(makeTable(exceptions, header = "The Exceptions defined by <i>metaknowledge</i> are:", simple = True, areClasses = True))
     for fnc in funcs:
-        writeFunc(fnc, f)
+        writeFunc(fnc, f, singleFile = singleFile)
     first = True
     if targetFile is None:
         f.write("\n{% include docsFooter.md %}")
-- 
2.43.0


From 0b863c639d9d5ff6d2fc80995aaed85b5e8604ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 51/73] fix: command line menus lost their settings when asking
 again

---
 metaknowledge/bin/metaknowledgeCLI.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index b0eaa29..db8111e 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -64,7 +64,7 @@ def inputMenu(inputDict, header = None, footer = None, errorMsg = 'That is not a
         code.interact(local = globals(), banner = bannerMsg)
     else:
         print('\033[93m\a' + errorMsg + '\033[0m') #Not windows compatible
-        return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg)
+        return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg, extraOptions = extraOptions)
 
 def getOutputName(clargs, suffix, prompt = "What do you wish to call the output file? ", errorMsg = 'That is not a valid file name.', checking = True):
     if clargs.name:
@@ -72,14 +72,14 @@ def getOutputName(clargs, suffix, prompt = "What do you wish to call the output
     s  = input(prompt) + suffix
     if len(s) == 0:
         print(errorMsg)
-        return getOutputName(clargs, suffix, prompt = prompt, errorMsg = errorMsg)
+        return getOutputName(clargs, suffix, prompt = prompt, errorMsg = errorMsg, checking = checking)
     else:
         if os.path.lexists(s) and checking:
             overWrite = yesorNo("{} already exists overwrite (y/n)? ".format(s))
             if overWrite:
                 return s
             else:
-                return getOutputName(clargs, suffix, prompt = prompt, errorMsg = errorMsg)
+                return getOutputName(clargs, suffix, prompt = prompt, errorMsg = errorMsg, checking = checking)
         else:
             return s
 
-- 
2.43.0


From c61982738172602d65e0bf00fe24023d34b3733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:19 +0000
Subject: [PATCH 52/73] fix: rpys without bounds died on no years, or on years
 beyond its default bounds

---
 metaknowledge/recordCollection.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index a14a9e5..260d302 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -834,13 +834,10 @@ class RecordCollection(CollectionWithIDs):
                     yearCounts[cYear] = 1
 
         if minYear is None:
-            smallest = min(yearCounts.keys())
-            if smallest > 1000:
-                minYear = smallest
+            #no years counted gives an empty range
+            minYear = max(min(yearCounts.keys(), default = 2100), 1000)
         if maxYear is None:
-            biggest = max(yearCounts.keys())
-            if biggest < 2100:
-                maxYear = biggest
+            maxYear = min(max(yearCounts.keys(), default = minYear - 1), 2100)
 
         targetYears = set(( i for i in range(minYear, maxYear + 1) if i not in dropYears))
 
-- 
2.43.0


From 90dd048180088e6c470d7dce99f85929fb461750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:21 +0000
Subject: [PATCH 53/73] fix: saving the journal abbreviation pages changed the
 working directory

---
 metaknowledge/journalAbbreviations/backend.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 7257ff2..a91892b 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -45,11 +45,8 @@ def _j9SaveCurrent(sDir = '.'):
     dname = os.path.normpath(sDir + '/' +  datetime.datetime.now().strftime("%Y-%m-%d_J9_AbbreviationDocs"))
     if not os.path.isdir(dname):
         os.mkdir(dname)
-        os.chdir(dname)
-    else:
-        os.chdir(dname)
     for urlID, urlString in j9urlGenerator(nameDict = True).items():
-        fname = "{}_abrvjt.html".format(urlID)
+        fname = os.path.join(dname, "{}_abrvjt.html".format(urlID))
         with open(fname, 'wb') as f:
             f.write(urllib.request.urlopen(urlString).read())
 
-- 
2.43.0


From 578778c0951c147aabde63f7b553881c8031dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:22 +0000
Subject: [PATCH 54/73] fix: skipped journals went to the default database
 instead of the chosen one

---
 metaknowledge/bin/metaknowledgeCLI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index db8111e..09a9f37 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -200,7 +200,7 @@ def getWhatToDo(clargs, inRC):
                             c.addToDB(manualDB= dbName)
                             print("{} added as a journal abbrviation.".format(c.journal))
                         else:
-                            c.addToDB(invert = True)
+                            c.addToDB(manualDB = dbName, invert = True)
                             print("{} will now be skipped".format(c.journal))
         except KeyboardInterrupt:
             print('\nExiting manual citation clasification', end = '')
-- 
2.43.0


From 4482f4e4ba28f20ebda21e24e41c88e23fbead00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:22 +0000
Subject: [PATCH 55/73] fix: the overwrite question did not say what would be
 overwritten

---
 metaknowledge/bin/metaknowledgeCLI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index 09a9f37..b8ad72b 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -306,12 +306,12 @@ def  outputNetwork(clargs, grph):
             try:
                 outName = getOutputName(clargs, '', checking = False)
                 metaknowledge.writeGraph(grph, outName, overwrite = False)
-            except OSError:
+            except OSError as e:
                 if clargs.name:
                     metaknowledge.writeGraph(grph, outName, overwrite = True)
                     break
                 else:
-                    overWrite = yesorNo("{}, overwrite (y/n)? ")
+                    overWrite = yesorNo("{}, overwrite (y/n)? ".format(e))
                     if overWrite:
                         metaknowledge.writeGraph(grph, outName, overwrite = True)
                         break
-- 
2.43.0


From 0acd711adee3787ea6f5ea0b2894da000f2ce835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:57 +0000
Subject: [PATCH 56/73] fix: an empty Medline file made medlineParser raise
 StopIteration

---
 metaknowledge/medline/medlineHandlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/medline/medlineHandlers.py b/metaknowledge/medline/medlineHandlers.py
index db0ae95..2f20ac0 100644
--- a/metaknowledge/medline/medlineHandlers.py
+++ b/metaknowledge/medline/medlineHandlers.py
@@ -59,8 +59,8 @@ def medlineParser(pubFile):
     try:
         with open(pubFile, 'r', encoding = 'latin-1') as openfile:
             f = enumerate(openfile, start = 1)
-            lineNum, line = next(f)
             try:
+                lineNum, line = next(f)
                 while True:
                     if line.startswith("PMID- "):
                         try:
-- 
2.43.0


From ffebc4c983b75d8e8c19969ada8215d269249ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:23 +0000
Subject: [PATCH 57/73] fix: updating an NSERC grant from a bad grant kept it
 marked good

---
 metaknowledge/grants/nsercGrant.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 0ec58f3..c4333a7 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -17,6 +17,9 @@ class NSERCGrant(Grant):
         Grant.__init__(self, original, grantdDict, idValue, bad, error, sFile = sFile, sLine = sLine)
 
     def update(self, other):
+        if other.bad:
+            self.error = other.error
+            self.bad = True
         for field, value in other._fieldDict.items():
             if value == '':
                 continue
-- 
2.43.0


From d9be6036a50b3764d56f440359f61e0a8c0c4c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:55 +0000
Subject: [PATCH 58/73] fix: a month given as a number is an int like every
 other month

---
 metaknowledge/WOS/tagProcessing/helpFuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/WOS/tagProcessing/helpFuncs.py b/metaknowledge/WOS/tagProcessing/helpFuncs.py
index 5446afe..79cc0d5 100644
--- a/metaknowledge/WOS/tagProcessing/helpFuncs.py
+++ b/metaknowledge/WOS/tagProcessing/helpFuncs.py
@@ -18,7 +18,7 @@ def getMonth(s):
     else:
         monthOrSeason = s.split('-')[-1].upper()
         if monthOrSeason.isdigit():
-            return monthOrSeason
+            return int(monthOrSeason)
         else:
             return monthDict[monthOrSeason]
 
-- 
2.43.0


From 16d0092b818c377c4c46f5b2514d27edbbdabba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:00 +0000
Subject: [PATCH 59/73] fix: readGraph keeps line ends inside names and values
 as they were written

---
 metaknowledge/graphHelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 47bee4f..4669804 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -65,7 +65,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
             grph = nx.Graph()
         if nodeList:
             PBar.updateVal(0, "Reading " + nodeList)
-            f = open(os.path.expanduser(os.path.abspath(nodeList)))
+            f = open(os.path.expanduser(os.path.abspath(nodeList)), newline = '')
             nFile = csv.DictReader(f)
             for line in nFile:
                 vals = line
@@ -77,7 +77,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
                     grph.add_node(ndID)
             f.close()
         PBar.updateVal(.25, "Reading " + edgeList)
-        f = open(os.path.expanduser(os.path.abspath(edgeList)))
+        f = open(os.path.expanduser(os.path.abspath(edgeList)), newline = '')
         eFile = csv.DictReader(f)
         for line in eFile:
             vals = line
-- 
2.43.0


From 3095ebd12bddc3047d366f1e3d321bf52dc16e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:00 +0000
Subject: [PATCH 60/73] fix: rankedSeries and timeSeries leave the line ends to
 the csv module

---
 metaknowledge/mkCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 9abf688..de4919b 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -630,7 +630,7 @@ class CollectionWithIDs(Collection):
                     seriesDict[entry] = 1
         seriesList = sorted(seriesDict.items(), key = lambda x: x[1], reverse = greatestFirst)
         if outputFile is not None:
-            with open(outputFile, 'w') as f:
+            with open(outputFile, 'w', newline = '') as f:
                 writer = csv.writer(f, dialect = 'excel')
                 writer.writerow((str(tag), 'count'))
                 writer.writerows(seriesList)
@@ -737,7 +737,7 @@ class CollectionWithIDs(Collection):
             seriesList += [(e, y) for y in yd.keys()]
         seriesList = sorted(seriesList, key = lambda x: x[1], reverse = greatestFirst)
         if outputFile is not None:
-            with open(outputFile, 'w') as f:
+            with open(outputFile, 'w', newline = '') as f:
                 writer = csv.writer(f, dialect = 'excel')
                 writer.writerow((str(tag), 'years'))
                 writer.writerows(((k,'|'.join((str(y) for y in v))) for k,v in seriesDict.items()))
-- 
2.43.0


From 2744e01d069449aace06b4a1947600a8ac6abc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:46 +0000
Subject: [PATCH 61/73] fix: the progress display of an empty graph's edge or
 node list was never finished

---
 metaknowledge/graphHelpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 4669804..3a04afa 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -262,8 +262,8 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                     outFile.writerow(newDict)
         PBar.updateVal(1, "Closing {}".format(name))
         f.close()
-        if not isinstance(_progBar, _ProgressBar):
-            PBar.finish("Done edge list {}, {} edges written.".format(name, count))
+    if not isinstance(_progBar, _ProgressBar):
+        PBar.finish("Done edge list {}, {} edges written.".format(name, count))
 
 def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None):
     """Writes a node attribute list of _grph_ to the file given by the path _name_.
@@ -337,8 +337,8 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
                 raise ValueError("Some nodes in the graph do not have the same attributes")
         PBar.updateVal(1, "Closing {}".format(name))
         f.close()
-        if not isinstance(_progBar, _ProgressBar):
-            PBar.finish("Done node attribute list: {}, {} nodes written.".format(name, count))
+    if not isinstance(_progBar, _ProgressBar):
+        PBar.finish("Done node attribute list: {}, {} nodes written.".format(name, count))
 
 def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = None, timeString = None, nodeIndexString = 'tnet-ID', weightString = 'weight'):
     """Writes an edge list designed for reading by the _R_ package [tnet](https://toreopsahl.com/tnet/).
-- 
2.43.0


From 41cbaf5faf79247e28131a3f7ccca2a4a3244742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:45 +0000
Subject: [PATCH 62/73] fix: forNLP filled extra columns twice per row when
 named twice or like the copyright column

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 260d302..e6bc214 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -658,7 +658,7 @@ class RecordCollection(CollectionWithIDs):
         if extraColumns is None:
             extraColumns = []
         else:
-            extraColumns = [c for c in extraColumns if c not in ['id', 'year', 'title', 'keywords', 'abstract']]
+            extraColumns = [c for c in dict.fromkeys(extraColumns) if c not in retDict]
         for column in extraColumns:
             retDict[column] = []
         with _ProgressBar(*progArgs, **progKwargs) as PBar:
-- 
2.43.0


From 9428f0990bcca4754bf391bea8bc97980db107fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:45 +0000
Subject: [PATCH 63/73] fix: diffusionCount filled a column twice per row when
 extraValue is also a tag of the sources

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index a3368e1..04fc00c 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -281,7 +281,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
             retrievedFields = []
             targetCount = []
             for R in sourceCounts.keys():
-                tagsLst = [t for t in R.keys() if t not in retrievedFields]
+                tagsLst = [t for t in R.keys() if t not in retrievedFields and t not in retDict]
                 retrievedFields += tagsLst
             for tag in retrievedFields:
                 retDict[tag] = []
-- 
2.43.0


From 807af6679d0e6133f73f8e00d821242fbc4f21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:45 +0000
Subject: [PATCH 64/73] fix: diffusionCount with an empty extraValue took it as
 given in some places only

---
 metaknowledge/diffusion.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 04fc00c..69499c4 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -246,7 +246,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 continue
             if listIds:
                 for sVal in RsourceVals:
-                    if extraValue:
+                    if extraValue is not None:
                         sourceCounts[sVal][targetCountString] += 1
                         for val in values:
                             try:
@@ -256,7 +256,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                     else:
                         sourceCounts[sVal] += 1
             else:
-                if extraValue:
+                if extraValue is not None:
                     sourceCounts[RsourceVals][targetCountString] += 1
                     for val in values:
                         try:
@@ -286,7 +286,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
             for tag in retrievedFields:
                 retDict[tag] = []
             for R, occ in sourceCounts.items():
-                if extraValue:
+                if extraValue is not None:
                     Rvals = R.subDict(retrievedFields)
                     for extraVal, occCount in occ.items():
                         retDict[extraValue].append(extraVal)
@@ -313,10 +313,10 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
             countLst = []
             recLst = []
             locLst = []
-            if extraValue:
+            if extraValue is not None:
                 extraValueLst = []
             for R, occ in sourceCounts.items():
-                if extraValue:
+                if extraValue is not None:
                     for extraVal, occCount in occ.items():
                         countLst.append(occCount)
                         recLst.append(R)
@@ -335,7 +335,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 retDict = {sourceType : recLst, targetCountString : countLst, sourceCountString : locLst}
             else:
                 retDict = {sourceType : recLst, targetCountString : countLst}
-            if extraValue:
+            if extraValue is not None:
                 retDict[extraValue] = extraValueLst
         return retDict
     else:
-- 
2.43.0


From 24ee1bccaab03b87fd44025ea19e351d3751a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:37 +0000
Subject: [PATCH 65/73] fix: leaving the python console of a CLI menu ended the
 program with a TypeError

---
 metaknowledge/bin/metaknowledgeCLI.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index b8ad72b..c641dcf 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -62,6 +62,7 @@ def inputMenu(inputDict, header = None, footer = None, errorMsg = 'That is not a
             else:
                 bannerMsg += '.'
         code.interact(local = globals(), banner = bannerMsg)
+        return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg, extraOptions = extraOptions)
     else:
         print('\033[93m\a' + errorMsg + '\033[0m') #Not windows compatible
         return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg, extraOptions = extraOptions)
-- 
2.43.0


From c90b3ef0a3b78d0e86b1087c68900354e34b44d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:37 +0000
Subject: [PATCH 66/73] fix: the CLI took an empty answer for a file name

---
 metaknowledge/bin/metaknowledgeCLI.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index c641dcf..2cba3db 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -70,11 +70,12 @@ def inputMenu(inputDict, header = None, footer = None, errorMsg = 'That is not a
 def getOutputName(clargs, suffix, prompt = "What do you wish to call the output file? ", errorMsg = 'That is not a valid file name.', checking = True):
     if clargs.name:
         return clargs.name + suffix
-    s  = input(prompt) + suffix
+    s  = input(prompt)
     if len(s) == 0:
         print(errorMsg)
         return getOutputName(clargs, suffix, prompt = prompt, errorMsg = errorMsg, checking = checking)
     else:
+        s += suffix
         if os.path.lexists(s) and checking:
             overWrite = yesorNo("{} already exists overwrite (y/n)? ".format(s))
             if overWrite:
-- 
2.43.0


From 2f47ba08575cceb71c984790bbf338b5e15d69d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:37 +0000
Subject: [PATCH 67/73] fix: --verbose did nothing

---
 metaknowledge/bin/metaknowledgeCLI.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index 2cba3db..3385a37 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -337,6 +337,8 @@ def mkCLI():
         args = argumentParser()
         if args.quiet:
             metaknowledge.VERBOSE_MODE = False
+        elif args.verbose:
+            metaknowledge.VERBOSE_MODE = True
         global RC
         RC = getFiles(args)
         makeNetwork = getWhatToDo(args, RC)
-- 
2.43.0


From 6e26f8a9a18f22765237b8dd4175f3d6bc30ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:12 +0000
Subject: [PATCH 68/73] fix: dropEdges removed the wrong one of parallel edges

---
 metaknowledge/graphHelpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3a04afa..5ae48f6 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -541,9 +541,10 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                 grph.remove_edge(e[0], e[1])
         edgesToDrop = []
         if minWeight != - float('inf') or maxWeight != float('inf'):
-            for e in grph.edges(data = True):
+            #Parallel edges are only told apart by their keys
+            for e in grph.edges(keys = True, data = True) if grph.is_multigraph() else grph.edges(data = True):
                 try:
-                    val = e[2][parameterName]
+                    val = e[-1][parameterName]
                 except KeyError:
                     if not ignoreUnweighted:
                         raise KeyError("One or more Edges do not have weight or " + str(parameterName), " is not the name of the weight")
@@ -555,7 +556,7 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                     if count % 100000 == 0:
                         PBar.updateVal(count/ total, str(count) + " edges analysed and " + str(total -len(grph.edges())) + " edges dropped")
                     if val > maxWeight or  val < minWeight:
-                        edgesToDrop.append((e[0], e[1]))
+                        edgesToDrop.append(e[:-1])
         grph.remove_edges_from(edgesToDrop)
         PBar.finish(str(total - len(grph.edges())) + " edges out of " + str(total) + " dropped, " + str(len(grph.edges())) + " returned")
 
-- 
2.43.0


From 79acd591d31baf7f29f77cc196f1d8bf92676aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:35 +0000
Subject: [PATCH 69/73] fix: a record keeps the error its text was refused with

The constructors overwrote it with the error of the missing id, so all damaged
records of a source were equal and only one of them was kept.
---
 metaknowledge/WOS/recordWOS.py           | 7 ++++---
 metaknowledge/medline/recordMedline.py   | 7 ++++---
 metaknowledge/proquest/recordProQuest.py | 7 ++++---
 metaknowledge/scopus/recordScopus.py     | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index 85ef80a..abbd994 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -78,8 +78,8 @@ class WOSRecord(ExtendedRecord):
             else:
                 raise TypeError("Unsupported input type '{}', WOSRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadWOSRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'UT' in fieldDict:
@@ -87,7 +87,8 @@ class WOSRecord(ExtendedRecord):
             else:
                 self._wosNum = 'WOS:Missing'
                 bad = True
-                error = BadWOSRecord("Missing WOS number")
+                if error is None:
+                    error = BadWOSRecord("Missing WOS number")
         ExtendedRecord.__init__(self, fieldDict, self._wosNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 9eb94c5..b7b7a5c 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -35,8 +35,8 @@ class MedlineRecord(ExtendedRecord):
             else:
                 raise RCTypeError("Unsupported input type '{}', PubmedRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadPubmedRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'PMID' in fieldDict:
@@ -44,7 +44,8 @@ class MedlineRecord(ExtendedRecord):
             else:
                 self._pubNum = None
                 bad = True
-                error = BadPubmedRecord("Missing PMID")
+                if error is None:
+                    error = BadPubmedRecord("Missing PMID")
         ExtendedRecord.__init__(self, fieldDict, self._pubNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index 8138ca8..670b760 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -36,15 +36,16 @@ class ProQuestRecord(ExtendedRecord):
             else:
                 raise TypeError("Unsupported input type '{}', ProQuestRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadProQuestRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         try:
             self._proID = "PROQUEST:{}".format(fieldDict["ProQuest document ID"][0])
         except KeyError:
             self._proID = "PROQUEST:MISSING"
             bad = True
-            error = BadProQuestRecord("Missing ProQuest document ID")
+            if error is None:
+                error = BadProQuestRecord("Missing ProQuest document ID")
         ExtendedRecord.__init__(self, fieldDict, self._proID, bad, error, sFile =sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 11d3656..9f42072 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -72,8 +72,8 @@ class ScopusRecord(ExtendedRecord):
             else:
                 raise RCTypeError("Unsupported input type '{}', ScopusRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except (BadScopusRecord, IndexError) as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'EID' in fieldDict:
@@ -81,7 +81,8 @@ class ScopusRecord(ExtendedRecord):
             else:
                 self._scopusNum = None
                 bad = True
-                error = BadScopusRecord("Missing EID")
+                if error is None:
+                    error = BadScopusRecord("Missing EID")
         ExtendedRecord.__init__(self, fieldDict, self._scopusNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
-- 
2.43.0


From d5dfed439dfc3a917dd2b2a791c7e54264fa1edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:35 +0000
Subject: [PATCH 70/73] fix: Citation.Extra does not fail for citations without
 a DOI attribute

Scopus citations have no DOI and the ones that did not match no volume either.
---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index ac70b25..8005a0f 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -253,7 +253,7 @@ class Citation(collections.abc.Hashable):
         extraTags = ['V', 'P', 'DOI', 'misc']
         retVal = ""
         for tag in extraTags:
-            if getattr(self, tag):
+            if getattr(self, tag, None):
                 retVal += getattr(self, tag) + ', '
         if len(retVal) > 2:
             return retVal[:-2]
-- 
2.43.0


From 5474d4153da16e5b062f4ff2aca6a0eded5086e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:35 +0000
Subject: [PATCH 71/73] fix: parserNSFfile reads tags given both with and
 without sub-elements

The text of the first was stored as a string, the append of the second raised
an AttributeError.
---
 metaknowledge/grants/nsfGrant.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index fcd1399..9d72959 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -120,6 +120,9 @@ def parserNSFfile(fileName):
             else:
                 if xmlElement.tag not in grantDict:
                     grantDict[xmlElement.tag] = []
+                elif not isinstance(grantDict[xmlElement.tag], list):
+                    #The tag has been seen already without sub-elements
+                    grantDict[xmlElement.tag] = [t for t in (grantDict[xmlElement.tag],) if t is not None]
                 elmComps = []
                 for subElement in xmlElement:
                     if subElement.text is not None:
-- 
2.43.0


From 65796ccb1a03c1132d209b97c4de446c63ee495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:07 +0000
Subject: [PATCH 72/73] fix: gender fractions of records without authors do not
 divide by zero

---
 metaknowledge/mkRecord.py         | 6 ++++--
 metaknowledge/recordCollection.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 5a2b314..7abec46 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -685,8 +685,10 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
                 countsList.append(rawList.count(k))
             if fractionsMode:
                 tot = sum(countsList)
-                for i in range(3):
-                    countsList.append(countsList.pop(0) / tot)
+                #Without authors all the fractions are 0
+                if tot > 0:
+                    for i in range(3):
+                        countsList.append(countsList.pop(0) / tot)
             if _countsTuple:
                 return tuple(countsList)
             else:
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index e6bc214..e73bb2a 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -894,7 +894,8 @@ class RecordCollection(CollectionWithIDs):
             femaleCount += f
             unknownCount += u
         if asFractions:
-            tot = maleCount + femaleCount + unknownCount
+            #Without authors all the fractions are 0
+            tot = max(maleCount + femaleCount + unknownCount, 1)
             return {'Male' : maleCount / tot, 'Female' : femaleCount / tot, 'Unknown' : unknownCount / tot}
         return {'Male' : maleCount, 'Female' : femaleCount, 'Unknown' : unknownCount}
 
-- 
2.43.0


From 394be04b42704e7059d7bd06fa8c0c692b96ce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:07 +0000
Subject: [PATCH 73/73] fix: quickVisual of an empty graph does not divide by
 zero

---
 metaknowledge/contour/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index 8576ff4..c156959 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -19,7 +19,7 @@ def quickVisual(G, showLabel = False):
     ax = f.add_subplot(1,1,1)
     ndTypes = []
     ndColours = []
-    layout = nx.spring_layout(G, k = 4 / math.sqrt(len(G.nodes())))
+    layout = nx.spring_layout(G, k = 4 / math.sqrt(max(len(G.nodes()), 1)))
     for nd in G.nodes(data = True):
         if 'type' in nd[1]:
             if nd[1]['type'] not in ndTypes:
-- 
2.43.0

