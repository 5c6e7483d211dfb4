#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays readable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Graph contents follow the mutation history",
  "After any sequence of creating, relabelling, setting or removing properties, detaching and removing, enumerating a graph yields exactly the nodes and edges that were created and not removed, each exactly once, with the labels, property values and endpoints last given to them. The reported node and edge counts equal the sizes of those enumerations.",
  ["histories"], "every sequence of mutating calls on live nodes and edges of one graph",
  "TestGraphCRUD removes one interior node once; no test removes the last node, relabels an edge, or mixes removals with later insertions, and hidden list/map state only matters several operations later.",
  ["graph.go", "list.go", "edgemap.go", "node.go", "edge.go"],
  [("doubly linked list of nodes", "list.go nodeList.add/remove"), ("label-keyed edge store", "edgemap.go edgeMap.add/remove"), ("mutators", "graph.go addNode, FastNewEdge, removeEdge, detachRemoveNode, setEdgeLabel, set/remove property")],
  [("allNodes", "nodes of the graph", "graph.go Graph"), ("allEdges", "edges of the graph", "graph.go Graph")],
  ["Graph.GetNodes", "Graph.GetEdges", "Graph.NumNodes", "Graph.NumEdges", "Node/Edge getters"])

p("C02", "Adjacency agrees with the edges",
  "For every node, direction and label filter, the edges reported for that node are exactly the live edges of the graph that start (outgoing) or end (incoming) at it and whose current label passes the filter, each once; asking for both directions gives the incoming ones plus the outgoing ones. An empty label set means no label filter.",
  ["histories"], "every mutation history, every node, direction and label or label set",
  "Tests only read adjacency of freshly built line and circle graphs; the storage switches representation between zero, one and many edges and per-label lists, so errors need particular add/remove/relabel orders.",
  ["edgemap.go", "list.go", "node.go", "graph.go"],
  [("per-node edge stores", "graph.go connect/disconnect"), ("representation switches at 0/1/2 edges", "edgemap.go add/remove"), ("adjacency iterators", "node.go GetEdges, GetEdgesWithLabel, GetEdgesWithAnyLabel")],
  [("incoming/outgoing", "edges by label at a node", "node.go Node")], ["Node.GetEdges", "Node.GetEdgesWithLabel", "Node.GetEdgesWithAnyLabel"])

p("C03", "Label lookups are exact",
  "Looking nodes up by a set of labels yields exactly the live nodes that currently carry all of those labels (all nodes for the empty set), and looking edges up by a set of labels yields exactly the live edges whose current label is one of them, each once. This holds after any history of relabelling and removal.",
  ["histories", "inputs"], "every mutation history and every queried label set",
  "No test looks anything up after a relabel or a removal, and none uses an empty or multi-label query on a graph that changed.",
  ["maps.go", "graph.go", "edgemap.go"],
  [("node label index", "maps.go NodeMap.Add/Replace/Remove/IteratorAllLabels"), ("edge label lists", "edgemap.go iteratorAnyLabel"), ("relabelling", "graph.go setNodeLabels, setEdgeLabel")],
  None, ["Graph.GetNodesWithAllLabels", "Graph.GetEdgesWithAnyLabel", "Node.HasLabel"])

p("C04", "Property indexes are transparent",
  "Declaring an index on a node or edge property, of either kind and at any moment, never changes what property lookups and searches return: they yield exactly the live nodes or edges that currently have the property (with the asked value), the same as without any index. Stored values are of a supported type, mutually comparable under a sorted index; the searched value is arbitrary.",
  ["histories", "configurations"], "every mutation history, every choice of indexed properties, index kind and moment of index creation, every searched value",
  "Index tests only insert; none updates or removes an indexed value, removes an indexed entity, or compares indexed with unindexed answers.",
  ["indexes.go", "hashindex.go", "btreeindex.go", "graph.go"],
  [("index maintenance on every mutation", "graph.go setNodeProperty, removeNodeProperty, setEdgeProperty, removeEdgeProperty, removeEdge, detachNode, cloneNode, cloneEdge"), ("index build", "indexes.go NodePropertyIndex, EdgePropertyIndex"), ("index structures", "hashindex.go, btreeindex.go")],
  [("nodeProperties/edgeProperties", "index per property name", "indexes.go graphIndex")], ["Graph.GetNodesWithProperty", "Graph.GetEdgesWithProperty", "Graph.FindNodes", "Graph.FindEdges"])

p("C05", "Attribute searches return exactly the matching items",
  "Searching nodes by labels and property values returns exactly the live nodes carrying all the labels and all the (non-null) property values; searching edges returns exactly the live edges whose label is one of the given labels and that have all the property values, each once. An empty label set or empty property map imposes no condition.",
  ["inputs", "histories"], "every graph, every label set and property map, with any subset of the properties indexed",
  "No test calls the attribute searches at all.",
  ["graph.go", "indexes.go"],
  [("choice of the smallest candidate iterator", "graph.go FindNodes, FindEdges"), ("residual filters", "graph.go GetNodeFilterFunc, GetEdgeFilterFunc")],
  None, ["Graph.FindNodes", "Graph.FindEdges", "GetNodeFilterFunc", "GetEdgeFilterFunc"])

p("C06", "Removal is complete and confined",
  "Removing an edge makes that edge, and removing a node makes that node and every edge incident to it, disappear from every enumeration, adjacency list, label lookup, property lookup and search; detaching a node removes exactly its incident edges and keeps the node. Nothing else in the graph changes.",
  ["histories"], "every mutation history followed by a removal, including self-loops, parallel edges, indexed values and first/last/only elements, followed by further mutations",
  "One test removes one interior node of a line graph without indexes and looks only at the node list.",
  ["graph.go", "edgemap.go", "list.go", "hashindex.go", "btreeindex.go", "maps.go"],
  [("cascade", "graph.go detachNode, detachRemoveNode"), ("edge removal", "graph.go removeEdge"), ("index clean-up", "indexes.go removeNodeFromIndex, removeEdgeFromIndex")],
  None, ["Node.DetachAndRemove", "Node.Detach", "Edge.Remove"])

p("C07", "Pattern search is sound and complete",
  "A pattern search reports every way to match the pattern to the graph exactly once and nothing else: node items satisfy their labels and properties, fixed-length edge items match one edge of an allowed label, direction and properties, variable-length items match a chain of distinct such edges whose length is within the bounds, and items sharing a variable name match the same entity.",
  ["inputs", "configurations"], "every finite graph and every pattern that alternates node and edge items, with edge lengths at least 1",
  "Tests check a handful of patterns on line and circle graphs, mostly counting results; they never combine directions, names, properties and variable lengths, or use branching multigraphs.",
  ["pattern.go", "planprocessors.go", "vpathitr.go"],
  [("plan construction", "pattern.go GetPlan"), ("nested step execution", "planprocessors.go"), ("variable binding and unbinding", "pattern.go recordStepResult/resetStepResult, isConstrainedNodes")],
  [("LocalSymbols", "variables bound so far", "pattern.go MatchContext")], ["Pattern.Run", "Pattern.FindPaths"])

p("C08", "Pattern results do not depend on the evaluation plan",
  "The matches a pattern reports depend only on the graph's contents: adding or omitting indexes, or any other change that makes the engine start from a different item of the pattern, including a middle or last node or an edge item, gives the same matches, the same paths and the same variable values.",
  ["configurations", "inputs"], "every graph, pattern and set of declared indexes, i.e. every starting item the planner can select",
  "The with/without-index test pairs use patterns where the index does not change the starting item in a way that matters, and only count paths.",
  ["pattern.go", "planprocessors.go"],
  [("start selection", "pattern.go getFastestElement, estimateNodeSize, estimateEdgeSize"), ("forward and backward steps", "pattern.go GetPlan"), ("result assembly", "pattern.go GetCurrentPath, CaptureSymbolValues")],
  None, ["Pattern.Run", "Pattern.FindPaths", "Pattern.FindNodes"])

p("C09", "Reported match paths are real and aligned with the pattern",
  "Every path reported for a match is connected, runs from the entity matching the first item to the entity matching the last, consists of exactly the edges matched by the edge items in pattern order with correct orientation, and the reported variable values are the entities at the named positions. The head-node and tail-node lists are exactly the distinct first and last nodes of the reported paths.",
  ["inputs", "configurations"], "every match of every pattern on every graph, whatever the starting item",
  "Tests inspect the string of at most one forward path per pattern.",
  ["pattern.go", "path.go", "planprocessors.go"],
  [("path assembly", "pattern.go GetCurrentPath"), ("symbol capture", "pattern.go CaptureSymbolValues"), ("head/tail extraction", "pattern.go GetHeadNodes, GetTailNodes, FindNodes")],
  None, ["DefaultMatchAccumulator", "Pattern.FindNodes"])

p("C10", "Variable-length traversal enumerates every trail once",
  "Enumerating variable-length paths from a node reports exactly the edge-distinct walks that begin with one of the given first edges, follow the requested direction, use only accepted edges and have a length within the bounds, each exactly once. It stops as soon as the consumer declines to continue, and always terminates, also on cyclic graphs.",
  ["inputs"], "every graph (cycles, self-loops, parallel edges), start node, direction, edge predicate, length bounds and stopping point",
  "TestCollectAllPaths asserts nothing; the pattern tests only count results on three graph shapes.",
  ["vpathitr.go", "path.go"],
  [("recursive descent with repeated-edge check", "vpathitr.go CollectAllPaths"), ("duplicate suppression", "itr.go makeUniqueIterator")],
  None, ["CollectAllPaths"])

p("C11", "Path operations keep paths connected and leave the graph alone",
  "Appending to a path succeeds exactly when the appended edges continue it, and otherwise panics leaving the path as it was; appending one path to another never modifies the appended one. Length, node and edge access, first/last, prefix tests, clones, slices and dropping the last edge (leaving its source node when it was the only one) agree with the sequence of edges, clones and slices are independent, and none but the documented edge-removing operation changes the graph.",
  ["histories", "inputs"], "every sequence of path operations on paths over every graph, including empty, single-node and reversed elements",
  "TestPathSlice tests two slices; append and prefix tests assert nothing.",
  ["path.go"],
  [("append checks", "path.go Append, AppendPath"), ("access and comparison", "path.go GetNode, GetEdge, First, Last, Slice, HasPrefix, HasPrefixPath, Clone"), ("shortening", "path.go RemoveLast, RemoveFirst")],
  [("only/path", "single-node or edge-sequence representation", "path.go Path")], ["Path methods"])

p("C12", "Cursor navigation stays consistent",
  "A cursor reports exactly the edges and the distinct neighbour nodes one step away from its node in the requested direction and label, and nothing when it has no node. Pushing an edge extends the recorded path and moves to the edge's target; popping undoes the last push, moving back to the previous node, without changing the graph.",
  ["histories"], "every sequence of set, start, push, pop and query calls on every graph",
  "TestPathBasic pushes one edge; popping and neighbour queries are never tested.",
  ["cursor.go", "itr.go", "path.go"],
  [("cursor state", "cursor.go Set, StartPath, PushToPath, PopFromPath"), ("neighbour iteration", "itr.go nodesFromEdgesIterator")],
  [("node/path", "current node and recorded path", "cursor.go Cursor")], ["Cursor methods"])

p("C13", "Copies are faithful and independent",
  "Copying a graph, a subgraph reachable from a node, or single nodes and edges adds to the target exactly one counterpart for each source node and edge in scope, with the same labels, endpoints (through the returned mapping) and the property values given by the supplied clone function, visible through every lookup and index of the target. The source is unchanged, and later changes to either side never show in the other.",
  ["histories", "inputs"], "every source graph, pre-populated and indexed target, reachability structure (cycles, shared nodes, pre-mapped nodes) and later mutation of either side",
  "TestClone copies a ten-node line into an empty graph and stops there; subgraph copy is untested.",
  ["clone.go", "graph.go", "stringset.go", "properties.go"],
  [("copy drivers", "clone.go CopyGraph, CopyGraphf, CopySubgraph, CopyNode, CopyEdge, CloneEdge"), ("element cloning", "graph.go cloneNode, cloneEdge"), ("shared label sets are copy-on-write", "stringset.go Clone/Add/Remove")],
  None, ["CopyGraph", "CopyGraphf", "CopySubgraph", "CopyNode", "CopyEdge", "CloneEdge"])

p("C14", "Isomorphism is decided exactly",
  "The isomorphism check answers true exactly when there is a one-to-one correspondence of all nodes and all edges of the two graphs that preserves endpoints and direction and pairs only nodes and edges equivalent under the given equivalence relations. A cancelled context yields an error rather than a false positive.",
  ["inputs"], "every pair of graphs (parallel edges, self-loops, repeated labels, symmetric structures) and every pair of equivalence relations",
  "It is only used on a graph and its own copy, where the answer is true; no negative case is tested.",
  ["alg.go"],
  [("candidate enumeration", "alg.go CheckIsomorphism"), ("mapping test", "alg.go isIsomorphism")],
  None, ["CheckIsomorphism"])

p("C15", "JSON encoding round-trips graphs",
  "Encoding any graph, with edges embedded or separate, produces one valid JSON document in the documented format in which every node has a unique index and every node and edge appears once with its labels, endpoints and properties; decoding it into an empty graph gives back an isomorphic graph with the same labels and JSON property values. Property keys are non-empty strings.",
  ["inputs", "configurations"], "every graph with JSON-representable property values, both edge placements, after any construction and removal history",
  "TestEncode compares two tiny outputs and only checks that decoding gives no error; separate edges are never encoded.",
  ["json.go", "stringset.go"],
  [("encoder", "json.go Encode"), ("decoder", "json.go Decode, addNode, addEdge")],
  None, ["JSON.Encode", "JSON.Decode"])

p("C16", "JSON decoding accepts every valid layout and rejects dangling edges",
  "Decoding a document in the documented format builds exactly the described nodes and edges whatever the order of the top-level members and nodes, mixing embedded and separate edges, with forward references, explicit or default-omitted fields, and unknown extra members of any shape; they are added to whatever the graph already holds, which stays as it is, and exactly one document of the input is consumed. A document whose edges refer to an undefined node index, or that is not such a document, yields an error.",
  ["inputs"], "every arrangement of nodes, embedded edges, separate edges and unknown members, and every dangling reference",
  "The only decoded files are two fixtures and the encoder's own output.",
  ["json.go"],
  [("member dispatch and depth tracking", "json.go Decode"), ("deferred edges", "json.go addNode edgeQueue")],
  [("edgeQueue/nodeMap", "unresolved edges and index-to-node map", "json.go Decode")], ["JSON.Decode"])

p("C17", "Property values are consistently ordered",
  "Comparison of property values is a total preorder on mutually comparable values: reflexive, antisymmetric up to equality, transitive, integer and string order on scalars, element-by-element then by length on lists whatever their Go slice type, and seeing wrapped values as their native value. Values of unrelated types are rejected by a panic, never silently ordered.",
  ["inputs"], "all pairs and triples of property values of the supported types, nested lists and native-value wrappers",
  "No test compares values directly.",
  ["properties.go"],
  [("comparison", "properties.go ComparePropertyValue"), ("native value unwrapping", "properties.go WithNativeValue")],
  None, ["ComparePropertyValue"])

p("C18", "Iterators are well behaved and size estimates never too small",
  "Every iterator returned by graphs, nodes, cursors and sets reports a maximum size that is either -1 (unknown) or at least the number of items it then yields, and once it has reported the end it keeps reporting the end.",
  ["inputs", "histories"], "every iterator-returning call on every graph reached by any history",
  "One test compares one index iterator's size; composed and filtered iterators are unchecked, and the planner relies on the sizes.",
  ["itr.go", "node.go", "edgemap.go", "maps.go", "sets.go"],
  [("size propagation", "itr.go withSize, filterIterator, funcIterator"), ("size sums for both directions", "node.go GetEdges, GetEdgesWithLabel, GetEdgesWithAnyLabel")],
  None, ["Iterator.MaxSize", "Iterator.Next"])

p("C19", "Queries are read-only and values are isolated",
  "No lookup, search, pattern match, traversal, copy, isomorphism check, encoding or rendering changes the graphs it reads or the arguments it is given, and creating or changing nodes, edges, paths and sets leaves the lists, maps and sets it is given as they are. Label lists and property maps passed to ordinary node and edge creation, label sets passed to or obtained from a node, and result slices can afterwards be modified through their own operations without affecting the graph.",
  ["histories", "inputs"], "every interleaving of queries, mutations and later modification of arguments and results",
  "Tests never re-read a graph after querying it, nor modify an argument or result afterwards.",
  ["graph.go", "stringset.go", "node.go", "path.go", "pattern.go"],
  [("property map copying", "graph.go NewNode, NewEdge"), ("copy-on-write label sets", "stringset.go"), ("label set cloning", "node.go GetLabels, graph.go setNodeLabels")],
  None, ["all query methods"])

p("C20", "Label sets behave as independent mathematical sets",
  "Every label-set operation (build, clone, add, add-set, remove, membership, any/all containment, equality, size, listing, sorting, JSON) gives the result of the corresponding operation on mathematical sets of strings. Changing one set never changes another one it was cloned from, copied to or built with, nor its operand.",
  ["histories", "inputs"], "every sequence of operations over several set variables sharing storage through clones and copies, including zero-valued sets",
  "There is no test of the label set type.",
  ["stringset.go"],
  [("copy-on-write updates", "stringset.go Clone, Add, AddSet, Remove")],
  None, ["StringSet methods"])

p("C21", "Identity and ownership are enforced per graph",
  "Within a graph every live node and edge has an identifier different from all others, which never changes during its life, however it was created. Connecting nodes that do not belong to the graph is refused with a panic that leaves every graph unchanged, and no operation on one graph is visible in another.",
  ["histories"], "every interleaving of creation, copying and removal over several graphs, and every attempt to connect foreign nodes",
  "No test creates two graphs that interact other than by copying, and none reads identifiers.",
  ["graph.go", "clone.go", "node.go", "edge.go"],
  [("identifier allocation", "graph.go idBase in FastNewNode, FastNewEdge, cloneNode, cloneEdge"), ("ownership checks", "graph.go FastNewEdge, cloneEdge")],
  [("idBase", "next identifier", "graph.go Graph")], ["Node.GetID", "Edge.GetID", "Node.GetGraph", "Edge.GetGraph", "Graph.NewEdge"])

p("C22", "DOT rendering shows each accepted item once",
  "Rendering a graph produces one digraph statement in which every node accepted by the node renderer appears once under a unique identifier, and exactly the edges between two accepted nodes are offered to the edge renderer, each once, with the identifiers of its source and target in that order; the default renderer writes an edge's label as a correctly quoted string when it has one. A renderer's error stops rendering and is returned.",
  ["inputs", "configurations"], "every graph, every choice of excluded nodes and edges, every edge label text",
  "There is no test of the renderer.",
  ["dotrenderer.go"],
  [("identifier assignment and filtering", "dotrenderer.go RenderNodesEdges"), ("default renderers", "dotrenderer.go DefaultDOTNodeRender, DefaultDOTEdgeRender")],
  None, ["DOTRenderer.Render"])

p("C23", "Node and edge collections behave as sets",
  "A node or edge set contains exactly the items of one graph added and not removed since, whatever duplicates were added or absent items removed; its size, membership test, iteration and slice agree, each item appearing once. A label-keyed node map yields, for any label set, exactly the registered nodes carrying all of them, and in full iteration every registered node once.",
  ["histories"], "every sequence of add, remove, relabel and query calls on node sets, edge sets and label maps",
  "TestNodeMap adds three disjoint groups and never removes or relabels; the set types are untested.",
  ["sets.go", "maps.go"],
  [("linked hash set", "sets.go fastSet"), ("label map", "maps.go NodeMap.Add/Remove/Replace/Iterator/IteratorAllLabels/IsEmpty")],
  None, ["NodeSet", "EdgeSet", "NodeMap"])

p("C24", "Derived graph queries match their definitions",
  "Sources are exactly the nodes without incoming edges and sinks exactly those without outgoing edges; the edges between two nodes are exactly the edges from the first to the second; next and previous nodes by label, target nodes and source nodes are exactly the distinct opposite endpoints of the edges concerned. Visiting all nodes visits each once and stops when told to.",
  ["histories", "inputs"], "every graph reached by any history, every pair of nodes and label",
  "None of these functions is tested.",
  ["alg.go", "itr.go", "node.go"],
  [("filters over adjacency", "alg.go SourcesItr, SinksItr, EdgesBetweenNodes, ForEachNode"), ("endpoint collection", "itr.go TargetNodes, SourceNodes; node.go NextNodesWith, PrevNodesWith")],
  None, ["Sources", "Sinks", "EdgesBetweenNodes", "TargetNodes", "SourceNodes", "NextNodesWith", "PrevNodesWith", "ForEachNode"])

p("C25", "Custom JSON property hooks are honoured everywhere",
  "When property marshal or unmarshal functions are supplied, every property of every node and every edge, embedded or separate, immediate or deferred, passes through them exactly once with its own key and value: the returned key and value are what is written or stored, an empty returned key drops just that property, and a returned error, or returned text that is not JSON, aborts the operation and is reported. A supplied string interner is used for the stored keys without changing them.",
  ["inputs", "configurations"], "every graph or document, every combination of renamed, dropped, rewritten and failing properties, both edge placements",
  "No test sets any of the hooks.",
  ["json.go"],
  [("marshal hook", "json.go Encode marshalProperties"), ("unmarshal hook and interner", "json.go unmarshalProperty, unmarshalProperties, addNode, addEdge")],
  None, ["JSON.Encode", "JSON.Decode"])

p("C26", "Output and input failures are always reported",
  "If the destination of an encoding or rendering fails at any write, the call returns that failure instead of reporting success; if a document being decoded ends early at any point, or a property holds a number that no value can represent, decoding returns an error. Encoding a property value that JSON cannot express is an error as well. No such failure causes a panic.",
  ["fault_sequences", "crash_points"], "every position at which the writer can fail and every proper prefix of a document",
  "No test injects a failing writer or a truncated document.",
  ["json.go", "dotrenderer.go"],
  [("write error propagation", "json.go Encode; dotrenderer.go Render"), ("token error propagation", "json.go Decode")],
  None, ["JSON.Encode", "JSON.Decode", "DOTRenderer.Render"])

p("C27", "Pre-bound pattern variables constrain the match",
  "When a pattern is run with variables already bound to sets of nodes or edges, the matches are exactly those of the unconstrained pattern in which every item with such a name matches a member of its set, whatever the starting item; a name bound to the wrong kind never yields a match. The supplied bindings are not modified.",
  ["inputs", "configurations"], "every graph, pattern and assignment of node or edge sets to some of the pattern's variable names",
  "One test binds one variable to one node; edge bindings and sets of several members are never tested.",
  ["pattern.go", "planprocessors.go", "sets.go"],
  [("constraint lookup", "pattern.go isConstrainedNodes, isConstrainedEdges"), ("constraint use in estimates", "pattern.go estimateNodeSize, estimateEdgeSize"), ("constraint checks in steps", "planprocessors.go")],
  [("Symbols", "bindings supplied by the caller", "pattern.go MatchContext")], ["Pattern.Run", "Pattern.FindPaths"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
