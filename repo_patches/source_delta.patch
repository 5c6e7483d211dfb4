From 1d0765b777fba2a21390095efc39c8bba27de16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 01/29] fix: keep the node list tail valid when the last node
 is removed

---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 0f0eb2b..97d30c8 100644
--- a/list.go
+++ b/list.go
@@ -117,7 +117,7 @@ func (list *nodeList) remove(node *Node) {
 	if node.next != nil {
 		node.next.prev = node.prev
 	} else {
-		list.tail = node
+		list.tail = node.prev
 	}
 	list.n--
 }
-- 
2.43.0


From 9e35dc5fd5921df617b8d46363ef73c0fbe3f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 02/29] fix: drop removed edges from the edge property indexes

---
 graph.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graph.go b/graph.go
index 4ac65e3..cc9c573 100644
--- a/graph.go
+++ b/graph.go
@@ -530,6 +530,7 @@ func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 func (g *Graph) removeEdge(edge *Edge) {
 	g.disconnect(edge)
 	g.allEdges.remove(edge, 0)
+	g.index.removeEdgeFromIndex(edge, g)
 }
 
 func (g *Graph) setEdgeProperty(edge *Edge, key string, value interface{}) {
-- 
2.43.0


From f09bc0f09f5b77e4a08ae08d874fd6176d7046e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 03/29] fix: keep the graph edge map consistent when an edge
 label changes

---
 graph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graph.go b/graph.go
index cc9c573..e0ee8fd 100644
--- a/graph.go
+++ b/graph.go
@@ -522,8 +522,12 @@ func (g *Graph) disconnect(edge *Edge) {
 }
 
 func (g *Graph) setEdgeLabel(edge *Edge, label string) {
+	// All edge maps are keyed by label, so the edge must leave them with
+	// its old label, and join them with the new one
 	g.disconnect(edge)
+	g.allEdges.remove(edge, 0)
 	edge.label = label
+	g.allEdges.add(edge, 0)
 	g.connect(edge)
 }
 
-- 
2.43.0


From 4253881a26314be08b6af23ad77dc0f74a3a869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 04/29] fix: FindNodes and FindEdges must filter when neither
 labels nor indexes apply

---
 graph.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/graph.go b/graph.go
index e0ee8fd..fc2c607 100644
--- a/graph.go
+++ b/graph.go
@@ -228,7 +228,10 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 		nodesByLabelItr = g.index.nodesByLabel.IteratorAllLabels(allLabels)
 	}
 	// Select the iterator with minimum max size
-	nodesByLabelSize := nodesByLabelItr.MaxSize()
+	nodesByLabelSize := -1
+	if nodesByLabelItr != nil {
+		nodesByLabelSize = nodesByLabelItr.MaxSize()
+	}
 	propertyIterators := make(map[string]NodeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -277,8 +280,15 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 			},
 		}
 	}
-	// Iterate all
-	return g.GetNodes()
+	// Iterate all, with a filter
+	return nodeIterator{
+		&filterIterator{
+			itr: g.GetNodes(),
+			filter: func(item interface{}) bool {
+				return nodeFilterFunc(item.(*Node))
+			},
+		},
+	}
 }
 
 // FindEdges returns an iterator that will iterate through all the
@@ -297,7 +307,10 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 		edgesByLabelItr = g.GetEdgesWithAnyLabel(labels)
 	}
 	// Select the iterator with minimum max size
-	edgesByLabelSize := edgesByLabelItr.MaxSize()
+	edgesByLabelSize := -1
+	if edgesByLabelItr != nil {
+		edgesByLabelSize = edgesByLabelItr.MaxSize()
+	}
 	propertyIterators := make(map[string]EdgeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -346,8 +359,15 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 			},
 		}
 	}
-	// Iterate all
-	return g.GetEdges()
+	// Iterate all, with a filter
+	return &edgeIterator{
+		&filterIterator{
+			itr: g.GetEdges(),
+			filter: func(item interface{}) bool {
+				return edgeFilterFunc(item.(*Edge))
+			},
+		},
+	}
 }
 
 // GetNodeFilterFunc returns a filter function that can be used to select
-- 
2.43.0


From e94402bf678e0519651560f2685644c1a2bc3f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 05/29] fix: IteratorAllLabels must not panic for an empty
 label set

---
 maps.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maps.go b/maps.go
index 2a6088f..d0f376a 100644
--- a/maps.go
+++ b/maps.go
@@ -182,6 +182,10 @@ func (nm NodeMap) Iterator() NodeIterator {
 }
 
 func (nm NodeMap) IteratorAllLabels(labels StringSet) NodeIterator {
+	if labels.Len() == 0 {
+		// All nodes have all the labels of an empty set
+		return nm.Iterator()
+	}
 	// Find the smallest map element, iterate that
 	var minSet *fastSet
 	for label := range labels.M {
-- 
2.43.0


From 4a3c5928bea524f02fb185da5693435612521170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 06/29] fix: NodeMap.Replace must drop the old labels when
 there are no new labels

---
 maps.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/maps.go b/maps.go
index d0f376a..df3307c 100644
--- a/maps.go
+++ b/maps.go
@@ -42,7 +42,6 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 	}
 	if newLabels.Len() == 0 {
 		nm.nolabels.add(node.id, node)
-		return
 	}
 	var set *fastSet
 	// Process removed labels
-- 
2.43.0


From ab7d35b211f77bbe73f2e39c3e829643d6c61ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 07/29] fix: a NodeMap containing only nodes without labels is
 not empty

---
 maps.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/maps.go b/maps.go
index df3307c..0f7b8dc 100644
--- a/maps.go
+++ b/maps.go
@@ -112,10 +112,7 @@ func (nm NodeMap) Remove(node *Node) {
 }
 
 func (nm NodeMap) IsEmpty() bool {
-	if nm.m.Size() == 0 {
-		return true
-	}
-	return false
+	return nm.m.Size() == 0 && nm.nolabels.size() == 0
 }
 
 type nodeMapIterator struct {
-- 
2.43.0


From 940d6f223a94d37b98bd2887e9fbc586b5178b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 08/29] fix: size estimates of edges in both directions must
 not add unknown sizes

---
 itr.go  | 10 ++++++++++
 node.go |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/itr.go b/itr.go
index b2c31a7..107ba4d 100644
--- a/itr.go
+++ b/itr.go
@@ -231,6 +231,16 @@ func withSize(itr iteratorWithoutSize, size int) Iterator {
 		size: size}
 }
 
+// addMaxSizes returns the maximum size of the concatenation of two
+// iterators, -1 if the size of one of them is not known
+func addMaxSizes(i1, i2 Iterator) int {
+	s1, s2 := i1.MaxSize(), i2.MaxSize()
+	if s1 == -1 || s2 == -1 {
+		return -1
+	}
+	return s1 + s2
+}
+
 type listIterator struct {
 	next, current *list.Element
 	size          int
diff --git a/node.go b/node.go
index 666e0ec..a857ecf 100644
--- a/node.go
+++ b/node.go
@@ -63,7 +63,7 @@ func (node *Node) GetEdges(dir EdgeDir) EdgeIterator {
 	}
 	i1 := node.incoming.iterator(2)
 	i2 := node.outgoing.iterator(1)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), addMaxSizes(i1, i2))}
 }
 
 // Returns an edge iterator for incoming or outgoing edges with the given label
@@ -76,7 +76,7 @@ func (node *Node) GetEdgesWithLabel(dir EdgeDir, label string) EdgeIterator {
 	}
 	i1 := node.incoming.iteratorLabel(label, 2)
 	i2 := node.outgoing.iteratorLabel(label, 1)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), addMaxSizes(i1, i2))}
 }
 
 // Returns an edge iterator for incoming or outgoingn edges that has the given labels
@@ -95,7 +95,7 @@ func (node *Node) GetEdgesWithAnyLabel(dir EdgeDir, labels StringSet) EdgeIterat
 	}
 	i1 := node.GetEdgesWithAnyLabel(IncomingEdge, labels)
 	i2 := node.GetEdgesWithAnyLabel(OutgoingEdge, labels)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), addMaxSizes(i1, i2))}
 }
 
 // SetLabels sets the node labels
-- 
2.43.0


From e9c12caf062fb810d92b4e5f0ce491cfe941101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 09/29] fix: searching a btree index for an incomparable value
 must not panic

---
 btreeindex.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/btreeindex.go b/btreeindex.go
index ec3ebd8..bbd9b8d 100644
--- a/btreeindex.go
+++ b/btreeindex.go
@@ -52,17 +52,23 @@ func (s setTree) remove(key interface{}, id int) {
 }
 
 // find returns the iterator and expected size.
-func (s setTree) find(key interface{}) Iterator {
+func (s setTree) find(key interface{}) (itr Iterator) {
 	if s.tree == nil {
 		return emptyIterator{}
 	}
+	// A key that cannot be compared with the indexed values is not in
+	// the index
+	defer func() {
+		if r := recover(); r != nil {
+			itr = emptyIterator{}
+		}
+	}()
 	v, found := s.tree.Get(key)
 	if !found {
 		return emptyIterator{}
 	}
 	set := v.(*fastSet)
-	itr := set.iterator()
-	return withSize(itr, set.size())
+	return withSize(set.iterator(), set.size())
 }
 
 func (s setTree) valueItr() Iterator {
-- 
2.43.0


From 2e12b5c661bf75e295e03c174863199a9ae3ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 10/29] fix: support list values in hash indexes

---
 hashindex.go | 81 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 69 insertions(+), 12 deletions(-)

diff --git a/hashindex.go b/hashindex.go
index e4b283c..c07ef9c 100644
--- a/hashindex.go
+++ b/hashindex.go
@@ -16,8 +16,65 @@ package lpg
 
 import (
 	"container/list"
+	"fmt"
+	"strings"
 )
 
+// hashListKey is the hash key for list values. Slices cannot be map
+// keys
+type hashListKey string
+
+// hashKey returns the map key for the property value. Two supported
+// values have the same key if and only if ComparePropertyValue returns 0
+// for them.
+func hashKey(value interface{}) interface{} {
+	for {
+		native, ok := value.(WithNativeValue)
+		if !ok {
+			break
+		}
+		value = native.GetNativeValue()
+	}
+	switch value.(type) {
+	case []string, []int, []interface{}:
+		out := strings.Builder{}
+		writeHashKey(&out, value)
+		return hashListKey(out.String())
+	}
+	return value
+}
+
+func writeHashKey(out *strings.Builder, value interface{}) {
+	for {
+		native, ok := value.(WithNativeValue)
+		if !ok {
+			break
+		}
+		value = native.GetNativeValue()
+	}
+	switch v := value.(type) {
+	case []string:
+		fmt.Fprintf(out, "[%d:", len(v))
+		for _, x := range v {
+			writeHashKey(out, x)
+		}
+	case []int:
+		fmt.Fprintf(out, "[%d:", len(v))
+		for _, x := range v {
+			writeHashKey(out, x)
+		}
+	case []interface{}:
+		fmt.Fprintf(out, "[%d:", len(v))
+		for _, x := range v {
+			writeHashKey(out, x)
+		}
+	case string:
+		fmt.Fprintf(out, "s%d:%s", len(v), v)
+	default:
+		fmt.Fprintf(out, "%T:%v;", v, v)
+	}
+}
+
 // A hashIndex is a hash table index
 type hashIndex struct {
 	values   map[interface{}]*fastSet
@@ -29,9 +86,7 @@ func (ix *hashIndex) add(value interface{}, id int, item interface{}) {
 		ix.values = make(map[interface{}]*fastSet)
 	}
 
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 
 	el := ix.elements.PushBack(item)
 	fs, ok := ix.values[value]
@@ -46,9 +101,7 @@ func (ix *hashIndex) remove(value interface{}, id int) {
 	if ix.values == nil {
 		return
 	}
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 	fs, ok := ix.values[value]
 	if !ok {
 		return
@@ -62,19 +115,23 @@ func (ix *hashIndex) remove(value interface{}, id int) {
 }
 
 // find returns the iterator and expected size.
-func (ix *hashIndex) find(value interface{}) Iterator {
+func (ix *hashIndex) find(value interface{}) (itr Iterator) {
 	if ix.values == nil {
 		return emptyIterator{}
 	}
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	// A value that cannot be a map key is not in the index
+	defer func() {
+		if r := recover(); r != nil {
+			itr = emptyIterator{}
+		}
+	}()
+	value = hashKey(value)
 	v, found := ix.values[value]
 	if !found {
 		return emptyIterator{}
 	}
-	itr := &procIterator{itr: v.iterator(), proc: func(in interface{}) interface{} { return in.(*list.Element).Value }}
-	return withSize(itr, v.size())
+	values := &procIterator{itr: v.iterator(), proc: func(in interface{}) interface{} { return in.(*list.Element).Value }}
+	return withSize(values, v.size())
 }
 
 func (ix *hashIndex) valueItr() Iterator {
-- 
2.43.0


From a299fed7afc4b6fb71781e6e0554be277bfd963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 11/29] fix: patterns that start matching at an edge must
 respect the edge direction

---
 pattern.go        | 3 ++-
 planprocessors.go | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pattern.go b/pattern.go
index e212cd8..13bf446 100644
--- a/pattern.go
+++ b/pattern.go
@@ -170,7 +170,8 @@ func (p PatternItem) estimateEdgeSize(g *Graph, symbols map[string]*PatternSymbo
 		return ret, max
 	}
 
-	if p.Min > 1 || p.Max > 1 || p.Min == -1 || p.Max == -1 {
+	// Matching can only start with a fixed length edge whose direction is known
+	if p.Min != 1 || p.Max != 1 || (p.Undirected && !p.ToLeft) {
 		return g.GetEdges(), -1
 	}
 
diff --git a/planprocessors.go b/planprocessors.go
index f9b2994..31156d1 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -101,10 +101,10 @@ func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) err
 	processor.init(ctx)
 	for processor.itr.Next() {
 		path := &Path{path: []PathElement{{Edge: processor.itr.Edge()}}}
-		// TODO: find edge dir
-		// if  {
-		// 	path.path[0].Reverse = true
-		// }
+		if processor.patternItem.ToLeft {
+			edge := path.path[0].Edge
+			path.path[0].Reverse = edge.GetFrom() != edge.GetTo()
+		}
 		processor.result = path
 		ctx.recordStepResult(processor)
 		if err := next.Run(ctx); err != nil {
-- 
2.43.0


From 332fbcdec5d1ebe593210869c9260c1bcbe8b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 12/29] fix: a repeated pattern variable must stay bound until
 the step that bound it is done

---
 pattern.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pattern.go b/pattern.go
index 13bf446..c02e542 100644
--- a/pattern.go
+++ b/pattern.go
@@ -293,10 +293,14 @@ type MatchContext struct {
 	// localSymbols are symbols defined in the pattern.
 	LocalSymbols map[string]*PatternSymbol
 
+	// The steps that recorded the local symbols
+	localSymbolOwners map[string]planProcessor
+
 	variablePathNode *Node
 }
 
-// If the current step has a local symbol, it will be recorded in the context
+// If the current step has a local symbol, it will be recorded in the
+// context. If an earlier step recorded the symbol already, it is kept.
 func (ctx *MatchContext) recordStepResult(step planProcessor) {
 	name := step.GetPatternItem().Name
 	if len(name) == 0 {
@@ -305,12 +309,17 @@ func (ctx *MatchContext) recordStepResult(step planProcessor) {
 	if _, global := ctx.Symbols[name]; global {
 		return
 	}
+	if owner, recorded := ctx.localSymbolOwners[name]; recorded && owner != step {
+		return
+	}
 	result := &PatternSymbol{}
 	result.Add(step.GetResult())
 	ctx.LocalSymbols[name] = result
+	ctx.localSymbolOwners[name] = step
 }
 
-// resetStepResult will remove the step's local symbol from the context
+// resetStepResult will remove the step's local symbol from the
+// context, if it is recorded by the step
 func (ctx *MatchContext) resetStepResult(step planProcessor) {
 	name := step.GetPatternItem().Name
 	if len(name) == 0 {
@@ -319,7 +328,11 @@ func (ctx *MatchContext) resetStepResult(step planProcessor) {
 	if _, global := ctx.Symbols[name]; global {
 		return
 	}
+	if ctx.localSymbolOwners[name] != step {
+		return
+	}
 	delete(ctx.LocalSymbols, name)
+	delete(ctx.localSymbolOwners, name)
 }
 
 func (pattern Pattern) Run(graph *Graph, symbols map[string]*PatternSymbol, result MatchAccumulator) error {
@@ -620,9 +633,10 @@ func (acc *DefaultMatchAccumulator) GetTailNodes() []*Node {
 
 func (plan MatchPlan) Run(graph *Graph, symbols map[string]*PatternSymbol, result MatchAccumulator) error {
 	ctx := &MatchContext{
-		Graph:        graph,
-		Symbols:      symbols,
-		LocalSymbols: make(map[string]*PatternSymbol),
+		Graph:             graph,
+		Symbols:           symbols,
+		LocalSymbols:      make(map[string]*PatternSymbol),
+		localSymbolOwners: make(map[string]planProcessor),
 	}
 
 	res := resultAccumulator{acc: result, plan: plan}
-- 
2.43.0


From 4ba3c941e20b99a8e59765e325c7f77bc26c7aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 13/29] fix: report all edges of paths matched backwards, in
 path order

---
 path.go    | 13 +++++++++++++
 pattern.go | 15 ++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/path.go b/path.go
index e613260..5ce7233 100644
--- a/path.go
+++ b/path.go
@@ -166,6 +166,19 @@ func (p *Path) AppendPath(path *Path) *Path {
 	return p.Append(path.path...)
 }
 
+// reversed returns a new path that goes through the edges of p in the
+// opposite direction
+func (p *Path) reversed() *Path {
+	ret := Path{
+		only: p.only,
+		path: make([]PathElement, 0, len(p.path)),
+	}
+	for i := len(p.path) - 1; i >= 0; i-- {
+		ret.path = append(ret.path, PathElement{Edge: p.path[i].Edge, Reverse: !p.path[i].Reverse})
+	}
+	return &ret
+}
+
 // GetEdge returns the nth edge
 func (p *Path) GetEdge(n int) *Edge {
 	if p.only != nil {
diff --git a/pattern.go b/pattern.go
index c02e542..e3db1aa 100644
--- a/pattern.go
+++ b/pattern.go
@@ -565,20 +565,25 @@ func (plan MatchPlan) GetCurrentPath() *Path {
 	revPathOut := &Path{}
 	for i := len(plan.steps) - 1; i >= plan.nForward; i-- {
 		if path, ok := plan.steps[i].GetResult().(*Path); ok {
-			revPathOut.Append(PathElement{Edge: path.path[0].Edge, Reverse: !path.path[0].Reverse})
-			// revPathOut.AppendPath(path)
+			revPathOut.AppendPath(path.reversed())
 		}
 	}
 	return revPathOut.AppendPath(out)
 }
 
-// CaptureSymbolValues captures the current symbol values as nodes or []Edges
+// CaptureSymbolValues captures the current symbol values as nodes or
+// []Edges. The edges are in the order they appear in the current path.
 func (plan MatchPlan) CaptureSymbolValues() map[string]interface{} {
 	ret := make(map[string]interface{})
-	for _, step := range plan.steps {
+	for i, step := range plan.steps {
 		if len(step.GetPatternItem().Name) > 0 {
 			if _, exists := ret[step.GetPatternItem().Name]; !exists {
-				ret[step.GetPatternItem().Name] = step.GetResult()
+				result := step.GetResult()
+				if path, ok := result.(*Path); ok && i > plan.nForward {
+					// This step goes backwards
+					result = path.reversed()
+				}
+				ret[step.GetPatternItem().Name] = result
 			}
 		}
 	}
-- 
2.43.0


From cc84adced68aaccf9b9995f2fc2cfa400fe12b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 14/29] fix: enforce bound edge variables and empty symbols in
 pattern matching

---
 pattern.go        | 25 +++++++++++++++++++++++++
 planprocessors.go | 23 +++++++++++++++--------
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/pattern.go b/pattern.go
index e3db1aa..13e2408 100644
--- a/pattern.go
+++ b/pattern.go
@@ -81,6 +81,10 @@ func (p PatternItem) isConstrainedNodes(ctx *MatchContext) (*NodeSet, error) {
 		if sym.Edges != nil {
 			return nil, ErrNodeVariableExpected(p.Name)
 		}
+		if sym.Nodes == nil {
+			// The symbol has no values
+			return NewNodeSet(), nil
+		}
 		return sym.Nodes, nil
 	}
 	return nil, nil
@@ -105,11 +109,32 @@ func (p PatternItem) isConstrainedEdges(ctx *MatchContext) (*EdgeSet, error) {
 		if sym.Nodes != nil {
 			return nil, ErrEdgeVariableExpected(p.Name)
 		}
+		if sym.Edges == nil {
+			// The symbol has no values
+			return NewEdgeSet(), nil
+		}
 		return sym.Edges, nil
 	}
 	return nil, nil
 }
 
+// Returns a filter that selects the edges with the labels and
+// properties of the pattern item, and that are in the symbols
+// constraining it
+func (p PatternItem) getConstrainedEdgeFilter(ctx *MatchContext) (func(*Edge) bool, error) {
+	filter := p.getEdgeFilter()
+	edges, err := p.isConstrainedEdges(ctx)
+	if err != nil {
+		return nil, err
+	}
+	if edges == nil {
+		return filter, nil
+	}
+	return func(edge *Edge) bool {
+		return edges.set.has(edge.id) && filter(edge)
+	}, nil
+}
+
 func (p *PatternItem) estimateNodeSize(g *Graph, symbols map[string]*PatternSymbol) (NodeIterator, int) {
 	max := -1
 	var ret NodeIterator
diff --git a/planprocessors.go b/planprocessors.go
index 31156d1..9d5c57d 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -82,10 +82,13 @@ type iterateEdges struct {
 	initialized bool
 }
 
-func (processor *iterateEdges) init(ctx *MatchContext) {
+func (processor *iterateEdges) init(ctx *MatchContext) error {
 	if !processor.initialized {
+		filterFunc, err := processor.patternItem.getConstrainedEdgeFilter(ctx)
+		if err != nil {
+			return err
+		}
 		processor.initialized = true
-		filterFunc := processor.patternItem.getEdgeFilter()
 		processor.itr = edgeIterator{
 			&filterIterator{
 				itr: processor.itr,
@@ -95,10 +98,13 @@ func (processor *iterateEdges) init(ctx *MatchContext) {
 			},
 		}
 	}
+	return nil
 }
 
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
-	processor.init(ctx)
+	if err := processor.init(ctx); err != nil {
+		return err
+	}
 	for processor.itr.Next() {
 		path := &Path{path: []PathElement{{Edge: processor.itr.Edge()}}}
 		if processor.patternItem.ToLeft {
@@ -124,7 +130,6 @@ type iterateConnectedEdges struct {
 	source      planProcessor
 	dir         EdgeDir
 	result      *Path
-	edgeFilter  func(*Edge) bool
 	edgeItr     EdgeIterator
 }
 
@@ -133,7 +138,6 @@ func newIterateConnectedEdges(source planProcessor, item PatternItem, dir EdgeDi
 		patternItem: item,
 		source:      source,
 		dir:         dir,
-		edgeFilter:  item.getEdgeFilter(),
 	}
 }
 
@@ -144,11 +148,15 @@ func (processor *iterateConnectedEdges) init(ctx *MatchContext) {
 
 func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	node := processor.source.GetResult().(*Node)
+	edgeFilter, err := processor.patternItem.getConstrainedEdgeFilter(ctx)
+	if err != nil {
+		return err
+	}
 	processor.edgeItr = edgeIterator{
 		&filterIterator{
 			itr: node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels),
 			filter: func(item interface{}) bool {
-				return processor.edgeFilter(item.(*Edge))
+				return edgeFilter(item.(*Edge))
 			},
 		},
 	}
@@ -175,8 +183,7 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 		return nil
 	}
 	logf("IterateConnectedEdges min=%d max=%d %+v\n", processor.patternItem.Min, processor.patternItem.Max, processor.result)
-	var err error
-	CollectAllPaths(ctx.Graph, node, processor.edgeItr, processor.edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
+	CollectAllPaths(ctx.Graph, node, processor.edgeItr, edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
 		processor.result = path
 		logf("IterateConnectedEdges testing len=%d %+v\n", len(path.path), processor.result)
 		ctx.recordStepResult(processor)
-- 
2.43.0


From 51aa30f511b8f3d49d7c5000ca8b199529d7f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 15/29] fix: match a loop once for an undirected pattern edge

---
 planprocessors.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index 9d5c57d..3062daf 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -153,12 +153,13 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 		return err
 	}
 	processor.edgeItr = edgeIterator{
-		&filterIterator{
+		// A loop is both an incoming and an outgoing edge
+		makeUniqueIterator(&filterIterator{
 			itr: node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels),
 			filter: func(item interface{}) bool {
 				return edgeFilter(item.(*Edge))
 			},
-		},
+		}),
 	}
 	if processor.edgeItr == nil {
 		return nil
-- 
2.43.0


From 689e518c87ca77c9ce0e7b756fd6f7767f1d5a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 16/29] fix: CollectAllPaths must filter the edges of the first
 leg

---
 vpathitr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vpathitr.go b/vpathitr.go
index 511ac4b..4f73e1e 100644
--- a/vpathitr.go
+++ b/vpathitr.go
@@ -92,6 +92,9 @@ func CollectAllPaths(graph *Graph, fromNode *Node, firstLeg EdgeIterator, edgeFi
 	edgeIr := makeUniqueIterator(firstLeg)
 	for edgeIr.Next() {
 		edge := firstLeg.Edge()
+		if !edgeFilter(edge) {
+			continue
+		}
 		pe := PathElement{Edge: edge}
 		if edge.GetFrom() != edge.GetTo() {
 			if edge.GetTo() == fromNode {
-- 
2.43.0


From 1ea636d591ffeda26e8875a589d56eb571505d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 17/29] fix: RemoveLast must not change the graph, and must
 leave the source node of a single edge

---
 path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 5ce7233..887dd1c 100644
--- a/path.go
+++ b/path.go
@@ -310,8 +310,10 @@ func (p *Path) RemoveLast() *Path {
 		p.only = nil
 		return p
 	}
+	if len(p.path) == 1 {
+		return p.SetOnlyNode(p.First())
+	}
 	if len(p.path) > 0 {
-		p.path[len(p.path)-1].Edge.Remove()
 		p.path = p.path[:len(p.path)-1]
 	}
 	return p
-- 
2.43.0


From 78037178a860c159e300f5c0881aaee1f9e806aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 18/29] fix: Append must check connectivity for empty paths,
 and keep the path if it fails

---
 path.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/path.go b/path.go
index 887dd1c..b33def6 100644
--- a/path.go
+++ b/path.go
@@ -117,26 +117,22 @@ func (p *Path) Append(path ...PathElement) *Path {
 	if len(path) == 0 {
 		return p
 	}
-	if p.NumNodes() == 0 {
-		p.path = make([]PathElement, len(path))
-		copy(p.path, path)
-		return p
-	}
 	last := p.Last()
-	if last != nil && last != path[0].GetSourceNode() {
+	if last == nil {
+		last = path[0].GetSourceNode()
+	}
+	if last != path[0].GetSourceNode() {
 		fmt.Println(last.GetLabels(), path[0].GetSourceNode().GetLabels())
 		fmt.Println(p.String())
 		panic("Appended edge is disconnected from path")
 	}
-	if p.only != nil {
-		p.only = nil
-	}
 	for _, pe := range path {
 		if pe.GetSourceNode() != last {
 			panic("Appended edges are disconnected")
 		}
 		last = pe.GetTargetNode()
 	}
+	p.only = nil
 	p.path = append(p.path, path...)
 	return p
 }
-- 
2.43.0


From a6c67a91cfdf72449c5bee5e57f29a481b7321c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 19/29] fix: AppendPath must not lose or modify single node
 paths

---
 path.go | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/path.go b/path.go
index b33def6..87a7ea5 100644
--- a/path.go
+++ b/path.go
@@ -140,24 +140,8 @@ func (p *Path) Append(path ...PathElement) *Path {
 // AppendPath can append a single node or a path to the callers path.
 // If the caller does not contain a path, the passed path is copied into the receiver
 func (p *Path) AppendPath(path *Path) *Path {
-	switch p.NumNodes() {
-	case 0:
-		p.path = make([]PathElement, len(path.path))
-		copy(p.path, path.path)
-		return p
-	case 1:
-		if p.only != nil {
-			p.only = nil
-		}
-	default:
-		switch path.NumNodes() {
-		case 0:
-			return p
-		case 1:
-			if path.only != nil {
-				path.only = nil
-			}
-		}
+	if p.IsEmpty() {
+		p.only = path.only
 	}
 	return p.Append(path.path...)
 }
-- 
2.43.0


From 91f600aac0a2e061855cc5a906570ca73fa64045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 20/29] fix: PopFromPath must move the cursor to the previous
 node

---
 cursor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cursor.go b/cursor.go
index e393582..6cb632c 100644
--- a/cursor.go
+++ b/cursor.go
@@ -52,6 +52,7 @@ func (c *Cursor) GetPath() *Path {
 // PopFromPath removes the last edge from the path. This also moves the cursor to the previous node
 func (c *Cursor) PopFromPath() *Cursor {
 	c.path.RemoveLast()
+	c.node = c.path.Last()
 	return c
 }
 
-- 
2.43.0


From 6c88fddb822b27877326a6cf1879b243ef91e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 21/29] fix: cursors must return the sources of the incoming
 edges when moving in any direction

---
 cursor.go | 4 ++--
 itr.go    | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/cursor.go b/cursor.go
index 6cb632c..e0b5f44 100644
--- a/cursor.go
+++ b/cursor.go
@@ -82,7 +82,7 @@ func (c *Cursor) Nodes(dir EdgeDir) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdges(dir), dir)
+	return newNodesFromEdges(c.node.GetEdges(dir), c.node, dir)
 }
 
 // NodesWith returns an iterator over the nodes that are reachable by
@@ -92,7 +92,7 @@ func (c *Cursor) NodesWith(dir EdgeDir, label string) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdgesWithLabel(dir, label), dir)
+	return newNodesFromEdges(c.node.GetEdgesWithLabel(dir, label), c.node, dir)
 }
 
 // Forward returns an edge iterator for outgoing edges of the current
diff --git a/itr.go b/itr.go
index 107ba4d..eb0f500 100644
--- a/itr.go
+++ b/itr.go
@@ -260,15 +260,18 @@ func (l *listIterator) Value() interface{} {
 
 func (l *listIterator) MaxSize() int { return l.size }
 
-// nodesFromEdgesIterator iterates the nodes of an edge iterator
+// nodesFromEdgesIterator iterates the nodes that are at the other end
+// of the edges of a node
 type nodesFromEdgesIterator struct {
+	node *Node
 	dir  EdgeDir
 	itr  EdgeIterator
 	seen map[int]struct{}
 }
 
-func newNodesFromEdges(itr EdgeIterator, dir EdgeDir) NodeIterator {
+func newNodesFromEdges(itr EdgeIterator, node *Node, dir EdgeDir) NodeIterator {
 	return &nodesFromEdgesIterator{
+		node: node,
 		dir:  dir,
 		itr:  itr,
 		seen: make(map[int]struct{}),
@@ -293,7 +296,7 @@ func (i *nodesFromEdgesIterator) Value() interface{} { return i.Node() }
 
 func (i *nodesFromEdgesIterator) Node() *Node {
 	e := i.itr.Edge()
-	if i.dir == IncomingEdge {
+	if i.dir == IncomingEdge || (i.dir == AnyEdge && e.GetTo() == i.node) {
 		return e.GetFrom()
 	}
 	return e.GetTo()
-- 
2.43.0


From f696a01ac054e057e2a12a3c855c85e7f28c7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 22/29] fix: CheckIsomorphism must not map two nodes to the
 same node

---
 alg.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/alg.go b/alg.go
index 5bc333c..9c968fc 100644
--- a/alg.go
+++ b/alg.go
@@ -109,12 +109,19 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 
 	nodeEquivalences := make([]int, len(all1Nodes))
 
-	// build a node equivalence map based on the current state of nodeEquivalences. nodeEquivalences must be valid
+	// build a node equivalence map based on the current state of
+	// nodeEquivalences. nodeEquivalences must be valid. Returns nil if
+	// two nodes of g1 are mapped to the same node of g2
 	buildNodeEquivalence := func() map[*Node]*Node {
 		eq := make(map[*Node]*Node)
+		mapped := make(map[*Node]struct{})
 		for i := range nodeEquivalences {
 			node1 := all1Nodes[i]
 			node2 := equivalences[i][nodeEquivalences[i]]
+			if _, exists := mapped[node2]; exists {
+				return nil
+			}
+			mapped[node2] = struct{}{}
 			eq[node1] = node2
 		}
 		return eq
@@ -163,7 +170,7 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 	// Iterate possible node equivalences, and check isomorphism
 	for {
 		nodeMapping := buildNodeEquivalence()
-		if isIsomorphism(nodeMapping) {
+		if nodeMapping != nil && isIsomorphism(nodeMapping) {
 			return true, nil
 		}
 		if !next() {
-- 
2.43.0


From 364bb2f88abd129258eec04c8e6372556dd63d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 23/29] fix: CheckIsomorphism must match the edges one to one

---
 alg.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alg.go b/alg.go
index 9c968fc..4bf0cb5 100644
--- a/alg.go
+++ b/alg.go
@@ -149,12 +149,15 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 				return false
 			}
 
+			// Each edge of node1 must have a separate equivalent edge
+			matched := make([]bool, len(edges2))
 			for _, edge1 := range edges1 {
 				found := false
-				for _, edge2 := range edges2 {
+				for i, edge2 := range edges2 {
 					// edge1.Edge.GetTo()
-					if nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
+					if !matched[i] && nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
 						edgeEquivalenceFunc(edge1, edge2) {
+						matched[i] = true
 						found = true
 						break
 					}
-- 
2.43.0


From 77a5e0b8750b89c40001b91c5408b1a91ea8d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 24/29] fix: quote edge labels in DOT output

---
 dotrenderer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dotrenderer.go b/dotrenderer.go
index 2a0a9fb..f0c7795 100644
--- a/dotrenderer.go
+++ b/dotrenderer.go
@@ -17,6 +17,7 @@ package lpg
 import (
 	"fmt"
 	"io"
+	"strings"
 )
 
 // DOTRenderer renders a graph in Graphviz dot format
@@ -57,6 +58,8 @@ func DefaultDOTNodeRender(ID string, node *Node, w io.Writer) error {
 func DefaultDOTEdgeRender(fromNode, toNode string, edge *Edge, w io.Writer) error {
 	lbl := edge.GetLabel()
 	if len(lbl) != 0 {
+		// Backslashes and quotes are special in a quoted string
+		lbl = strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(lbl)
 		if _, err := fmt.Fprintf(w, "  %s -> %s [label=\"%s\"];\n", fromNode, toNode, lbl); err != nil {
 			return err
 		}
-- 
2.43.0


From edd31b97fee807af50c0dd3720bdc368ccb2cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 25/29] fix: encode an empty graph with separate edges as valid
 JSON

---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 2b7b248..8b351d7 100644
--- a/json.go
+++ b/json.go
@@ -350,8 +350,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 	}
 
 	if j.MarshalEdgesSeparately {
-		if _, err := out.Write(comma); err != nil {
-			return err
+		if len(nodeMap) > 0 {
+			if _, err := out.Write(comma); err != nil {
+				return err
+			}
 		}
 		if _, err := out.Write(edgesKey); err != nil {
 			return err
-- 
2.43.0


From 59d743e01881039239b5a1c74bc4a950b98e5aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 26/29] fix: skip unknown keys with object and array values
 when decoding JSON

---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 8b351d7..1088372 100644
--- a/json.go
+++ b/json.go
@@ -526,8 +526,10 @@ func (j JSON) Decode(g *Graph, input *json.Decoder) error {
 				depth++
 			case json.Delim('}'), json.Delim(']'):
 				depth--
-			default:
-				depth--
+			}
+			if depth == 1 {
+				// The value of the unknown key ends
+				depth = 0
 			}
 		}
 	}
-- 
2.43.0


From 92d1deac816adf3f5d35c4fdf7960f419d91b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 27/29] fix: edges cannot be connected to removed nodes

---
 graph.go | 9 +++++----
 node.go  | 2 ++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/graph.go b/graph.go
index fc2c607..6b1e525 100644
--- a/graph.go
+++ b/graph.go
@@ -90,10 +90,10 @@ func (g *Graph) NewEdge(from, to *Node, label string, props map[string]any) *Edg
 // panics. This version uses the given properties map directly without
 // copying it.
 func (g *Graph) FastNewEdge(from, to *Node, label string, props map[string]any) *Edge {
-	if from.graph != g {
+	if from.graph != g || from.removed {
 		panic("from node is not in graph")
 	}
-	if to.graph != g {
+	if to.graph != g || to.removed {
 		panic("to node is not in graph")
 	}
 	newEdge := &Edge{
@@ -490,6 +490,7 @@ func (g *Graph) removeNodeProperty(node *Node, key string) {
 func (g *Graph) detachRemoveNode(node *Node) {
 	g.detachNode(node)
 	g.allNodes.remove(node)
+	node.removed = true
 	g.index.removeNodeFromIndex(node, g)
 }
 
@@ -509,10 +510,10 @@ func (g *Graph) detachNode(node *Node) {
 }
 
 func (g *Graph) cloneEdge(from, to *Node, sourceEdge *Edge, cloneProperty func(string, interface{}) interface{}) *Edge {
-	if from.graph != g {
+	if from.graph != g || from.removed {
 		panic("from node is not in graph")
 	}
-	if to.graph != g {
+	if to.graph != g || to.removed {
 		panic("to node is not in graph")
 	}
 	newEdge := &Edge{
diff --git a/node.go b/node.go
index a857ecf..98a50c4 100644
--- a/node.go
+++ b/node.go
@@ -29,6 +29,8 @@ type Node struct {
 	incoming edgeMap
 	outgoing edgeMap
 	id       int
+	// true once the node is removed from the graph
+	removed bool
 }
 
 // GetProperty returns the property value in the string table
-- 
2.43.0


From d20f10aade42c43c71d60552742ac236e0c53359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 28/29] fix: a path does not share the slice it is built from

---
 path.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 87a7ea5..0b9de3f 100644
--- a/path.go
+++ b/path.go
@@ -31,7 +31,8 @@ type PathElement struct {
 }
 
 func NewPathFromElements(elements ...PathElement) *Path {
-	return &Path{path: elements}
+	// The elements belong to the caller
+	return &Path{path: append([]PathElement(nil), elements...)}
 }
 
 func NewPathElementsFromEdges(edges []*Edge) []PathElement {
-- 
2.43.0


From b40634dedf12415debd99a21fc5fe7604e98f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:02 +0000
Subject: [PATCH 29/29] fix: report property values that cannot be written as
 JSON

---
 json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 1088372..10408b0 100644
--- a/json.go
+++ b/json.go
@@ -180,7 +180,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 		ret := make(map[string]json.RawMessage)
 		for k, v := range in {
 			if j.PropertyMarshaler == nil {
-				d, _ := json.Marshal(v)
+				d, err := json.Marshal(v)
+				if err != nil {
+					return nil, err
+				}
 				ret[k] = d
 			} else {
 				k, d, err := j.PropertyMarshaler(k, v)
-- 
2.43.0

