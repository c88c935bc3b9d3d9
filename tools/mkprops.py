#!/usr/bin/env python3
# regenerates /verif/properties.jsonl (single place where the property texts are kept)
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
GU='c/graphLib/graphUtils.c'; GS='c/graphLib/graphStructures.h'
p('C01','Graph storage stays a well-formed edge/adjacency structure under every edit',
 "Whenever an edge-editing operation of the library (insert, add, dynamic add, delete, hide, restore, attach, detach) is applied to a well-formed graph, the graph is well-formed afterwards: every vertex's adjacency list is a finite doubly linked sequence whose two ends are recorded, each visible edge occurs exactly once in the list of each of its two endpoints, and each half of an edge names the opposite endpoint. The record of free edge slots lists exactly the unused slots below the used bound, each once, and the reported edge count equals the number of edges that exist. No edit reads or writes outside the graph's allocated storage.",
 ['inputs','histories'],"all well-formed graphs of every size and capacity, all admissible arguments, hence (by induction over single operations) all histories of edits",
 "The tests run whole algorithms on a few sample graphs and compare final output; they never inspect storage after individual edits and cannot cover every list shape, slot reuse pattern and history.",
 [GU,GS],[('arc pair layout, twin arcs, adjacency list attach/detach macros',GS),('edge insert/delete/hide/restore and free-slot stack',GU)],
 ['graphStructures.h accessors after each call','graph.h API'],
 [('adjacency links','per vertex doubly linked arc lists',GS),('edgeHoles','free edge slots',GS),('M','edge count',GS)])
p('C02','Edge insertion and deletion change exactly the requested edge and nothing else',
 "A successful insertion places one new undirected, unmarked edge between the two given vertices at exactly the requested positions in their adjacency lists, and a deletion removes exactly the given edge and returns the arc that followed it; every other edge keeps its endpoints, order and attributes. Insertion with invalid vertices or positions, or beyond the edge capacity, reports failure (the latter as 'nonembeddable') and leaves the graph unchanged. The growing variant of insertion succeeds, below the edge count of a complete graph and whenever memory allows, by enlarging capacity without disturbing existing content.",
 ['inputs','histories'],"all well-formed graphs, all vertex/position/direction arguments valid or invalid, all capacities and free-slot states",
 "Tests only insert edges via file readers and generators at list ends, never check untouched edges, never hit full capacity with reuse of deleted slots, or directed insert positions.",
 [GU,'c/graphLib/graph.h'],[('gp_AddEdge / gp_InsertEdge / gp_DynamicAddEdge / gp_DeleteEdge / gp_EnsureArcCapacity',GU)],['return values and adjacency lists'])
p('C03','Hiding and restoring edges and vertices are exact inverses in LIFO order',
 "Restoring hidden edges in the reverse of the order in which they were hidden returns every adjacency list to exactly its earlier sequence. Hiding a vertex hides exactly the edges then incident to it and leaves every other list order unchanged. Hiding, contracting or identifying vertices followed by restoring returns the graph to the state before the operation, with every adjacency list containing the same edges with the same endpoints.",
 ['inputs','histories'],"all well-formed graphs and all nested hide/contract/identify/restore histories",
 "The tests never call vertex hiding, contraction or identification, and algorithm runs only ever hide the few edges they need.",
 [GU],[('hide/restore edge, hide vertex, contract, identify and restore vertices',GU)],['adjacency lists before and after'])
p('C04','Neighbor, edge-lookup and degree queries are exact',
 "The neighbor test answers positively exactly when the first vertex's list has an arc to the second that is usable in that direction. The edge lookup returns the first arc of the first vertex's own list that leads to the second, whatever its direction, and NIL when there is none. Degree queries return the exact number of listed arcs, with in-degree and out-degree counting exactly the arcs usable in that direction. Queries never modify the graph, and NIL vertices are rejected by the lookup and degree functions without being dereferenced.",
 ['inputs'],"all well-formed graphs (directed or undirected edges), all vertex arguments",
 "Tests use undirected graphs through whole algorithms; no test queries directed edges, hidden edges or degree functions.",
 [GU],[('neighbor and degree queries',GU)],['return values of the query API'])
p('C05','Sorting vertices by DFS number is a relabelling that can be undone',
 "Sorting the vertices of a numbered graph produces the same graph under the renaming that maps each vertex to its stored index: edges connect the renamed endpoints, each vertex keeps its adjacency order and attributes, parent references are renamed accordingly, and the stored index remembers the original label. Sorting a second time restores the original graph exactly, and the sorted/unsorted flag always tells which order is in force.",
 ['inputs'],"all well-formed graphs whose stored indices form any permutation of the vertices",
 "Tests compare final outputs only on sample graphs where a mistake in one field of the relabelling would go unnoticed.",
 ['c/graphLib/graphDFSUtils.c'],[('gp_SortVertices / _SortVertices','c/graphLib/graphDFSUtils.c')],['vertex records, arcs and parents before and after'])
p('C06','Depth-first search labelling is a genuine DFS of the graph',
 "After a successful depth-first search of a not yet labelled graph without self-loops each vertex carries a distinct number from the first to the last vertex index, every vertex is either a root or was entered by a tree edge from a parent with a smaller number, and every edge is labelled as a parent/child tree pair or a forward/back pair whose direction agrees with the numbering. Every edge that is not a tree edge joins a vertex to one of its ancestors. Repeating the search on an already numbered graph changes nothing.",
 ['inputs'],"all well-formed graphs of any size, connected or not",
 "Tests only check the end-to-end verdict for a handful of graphs and never inspect the labelling.",
 ['c/graphLib/graphDFSUtils.c'],[('gp_CreateDFSTree','c/graphLib/graphDFSUtils.c')],['vertex numbers, parents and edge types'])
p('C07','Least ancestor and lowpoint values satisfy their defining equations',
 "For every vertex of a DFS-numbered and sorted graph, the least ancestor computed is the minimum of the vertex's own number and its back-edge neighbors, and the lowpoint is the minimum of its least ancestor and the lowpoints of its DFS children. Computing them changes no edge and no adjacency order.",
 ['inputs'],"all well-formed DFS-numbered graphs",
 "Tests never look at these values; a wrong lowpoint only changes verdicts on special graphs.",
 ['c/graphLib/graphDFSUtils.c'],[('gp_LowpointAndLeastAncestor / gp_LeastAncestor','c/graphLib/graphDFSUtils.c')],['leastAncestor and lowpoint of each vertex'])
p('C08','The integer stack is an exact LIFO sequence with safe capacity handling',
 "Pushing, popping, clearing, copying and duplicating an integer stack act exactly as on a finite sequence of integers: a pop returns the last value pushed and not yet popped, a copy or duplicate has the same contents and is independent of the original, and no other element changes. A duplicate, and a copy target that had to grow, also has the capacity of the original; a target that was large enough keeps its own. In the checked (non-macro) operations, exceeding the capacity or underflowing an empty stack reports failure and leaves the stack unchanged. No operation touches memory outside the stack's own storage.",
 ['inputs','histories'],"all stacks of every capacity and contents, all operation histories, including allocation failure",
 "Tests only use stacks implicitly inside algorithms sized so that overflow, underflow, copying into smaller stacks and allocation failure never happen.",
 ['c/graphLib/lowLevelUtils/stack.c','c/graphLib/lowLevelUtils/stack.h'],[('sp_New/Push/Pop/CopyContent/Copy/Duplicate','c/graphLib/lowLevelUtils/stack.c')],['stack contents and return codes'])
p('C09','List collections hold disjoint circular lists with exact update operations',
 "Appending, prepending, inserting before or after, and deleting a node acts on exactly one list of the collection as the corresponding operation on a sequence, keeps that list circular and doubly linked, and leaves every other list of the collection unchanged. Concatenation and list traversal visit exactly the members in order. Collections can be created, reset, copied and duplicated without sharing storage, and copying between collections of different size fails without change.",
 ['inputs','histories'],"all list collections over every number of nodes, all lists and nodes",
 "Tests exercise the lists only through the embedder on a few graphs and never examine links.",
 ['c/graphLib/lowLevelUtils/listcoll.c','c/graphLib/lowLevelUtils/listcoll.h'],[('LCAppend/LCPrepend/LCInsertAfter/LCInsertBefore/LCDelete/LCCopy','c/graphLib/lowLevelUtils/listcoll.c')],['prev/next links'])
p('C10','String buffers and string-or-file channels preserve every character in order',
 "Characters and strings written to a string buffer, or to an in-memory string channel, are read back in exactly the order written, with reads never passing the end of what was written and the buffer always a terminated string. Growing the buffer never loses, duplicates or reorders content, and a failed growth leaves the content intact. Taking the string hands over exactly the unread-independent full content once and leaves an empty buffer.",
 ['inputs','histories'],"all buffer contents and capacities, all interleavings of writes and reads, all strings, allocation failure included",
 "Tests only read and write complete small files; buffer growth boundaries, unget and partial reads are not exercised.",
 ['c/graphLib/io/strbuf.c','c/graphLib/io/strOrFile.c'],[('sb_ConcatChar/sb_ConcatString/sb_ReadSkip.../sb_TakeString','c/graphLib/io/strbuf.c'),('sf_getc/sf_ungetc/sf_fgets/sf_fputs','c/graphLib/io/strOrFile.c')],['characters returned and buffer content'])
p('C11','The graph6 codec is exact: the order and every edge survive write and read',
 "Writing a simple undirected graph in graph6 and reading it back yields the same order and the same edge set, the order prefix and the bit of each vertex pair are the ones the graph6 format defines, and every emitted character is printable in the format's range. Malformed input (bad order prefix, wrong length, character out of range, missing header parts) is rejected with an error rather than accepted as some graph. Encoding and decoding never access memory outside their buffers for any supported order.",
 ['inputs'],"all orders from 1 up to the supported maximum and all edge sets; all byte strings as input",
 "Tests read a few well-formed .g6 files of small order; they cannot cover the multi-byte order prefix for all orders, all malformed inputs and every bit position.",
 ['c/graphLib/io/g6-read-iterator.c','c/graphLib/io/g6-write-iterator.c','c/graphLib/io/g6-api-utilities.c'],[('order and bit-vector encoding','c/graphLib/io/g6-write-iterator.c'),('validation and decoding','c/graphLib/io/g6-read-iterator.c')],['encoded text, decoded graph and return codes'])
p('C12','Extensions add, override and remove behaviour without disturbing each other',
 "Attaching an extension makes exactly its context findable under its identifier and overrides exactly the operations it supplies, with the previously effective operation reachable as its base; attaching twice or removing an absent one changes nothing else. Removing extensions in any order leaves every operation resolved to the most recently attached remaining provider, and removing all of them restores the original operations. Each context is released exactly once.",
 ['inputs','histories'],"all sequences of attach, find, detach and copy over any number of extensions",
 "Tests attach at most one algorithm and one drawing extension in fixed order and never detach in the middle of a chain.",
 ['c/graphLib/extensionSystem/graphExtensions.c'],[('gp_AddExtension/gp_RemoveExtension/_OverloadFunctions/_FixupFunctionTables','c/graphLib/extensionSystem/graphExtensions.c')],['function table entries and extension list'])
p('C13','The embedding checker accepts only genuine embeddings of the original graph',
 "When the planar embedding check reports success, the result graph has exactly the edges of the original graph (no edge missing, none added) and the face count obtained by tracing the rotation system satisfies Euler's formula for the number of components found. For outerplanar embeddings success further implies that every vertex lies on the external face. The checks change no edge, endpoint or adjacency order.",
 ['inputs'],"all pairs of a simple original graph and a candidate embedding, including corrupted ones",
 "Tests feed only correct embeddings to the checker; whether it rejects every wrong certificate is never exercised.",
 ['c/graphLib/planarityRelated/graphTests.c'],[('_CheckEmbeddingIntegrity, _CheckEmbeddingFacialIntegrity, _CheckAllVerticesOnExternalFace','c/graphLib/planarityRelated/graphTests.c')],['return code of the integrity check'])
p('C14','The obstruction checker accepts only genuine forbidden-subgraph certificates',
 "When the obstruction check reports success, the result graph is a subgraph of the original graph on the same vertices and its vertex degrees and disjoint paths make it a subdivision of one of the obstructions required for the requested problem (K5 or K3,3 for planarity; K4 or K2,3 for outerplanarity), with every other vertex isolated or on a path. The check changes no edge or endpoint of either graph.",
 ['inputs'],"all pairs of original graph and candidate obstruction, including corrupted ones",
 "Tests feed only correct obstructions; acceptance of wrong certificates is never tried.",
 ['c/graphLib/planarityRelated/graphTests.c'],[('_CheckObstructionIntegrity, _TestSubgraph, _CheckKuratowskiSubgraphIntegrity, _CheckOuterplanarObstructionIntegrity','c/graphLib/planarityRelated/graphTests.c')],['return code of the integrity check'])
p('C15','Copying or duplicating a graph yields an equal and independent graph',
 "After a successful graph copy or duplication the destination has the same order, edges, adjacency orders, vertex and edge attributes and free-slot record as the source, the source is unchanged, and later edits of one do not affect the other. Copying only the adjacency lists into a graph without edges reproduces the same edge set in the same list order. Copying between graphs of different order fails without changing the destination.",
 ['inputs','histories'],"all well-formed graphs with any free slots, hidden edges, flags and capacities",
 "Tests duplicate fresh graphs before running an algorithm; graphs with deleted or hidden edges, small capacity destination and extension data are never copied.",
 [GU],[('gp_CopyGraph, gp_DupGraph, gp_CopyAdjacencyLists',GU)],['all fields of destination and source'])
p('C16','Random graph generators produce exactly the promised graphs',
 "A generated random graph is simple, loop-free and connected and its edges join valid vertices; the generator for a given edge count produces exactly that many edges (never fewer than the spanning tree it starts from), limited by the edge capacity and by the complete graph, and up to a maximal planar graph's count the graph is planar. The result only depends on the random source, never reads outside storage, and generation ends for every random source that eventually yields each vertex pair.",
 ['inputs','histories'],"all orders and requested edge counts and all possible outcomes of the random source",
 "Tests use a few fixed seeds and sizes; edge cases of requested counts and every random outcome cannot be sampled.",
 [GU],[('gp_CreateRandomGraph, gp_CreateRandomGraphEx, _GetRandomNumber',GU)],['edges of the produced graph'])
p('C17','Graph creation, initialisation, reuse and release are safe and complete',
 "Creating and initialising a graph of any valid order produces an empty well-formed graph of that order with the promised edge capacity, re-initialising it restores that empty state with the same order and capacity, and releasing it frees every owned block exactly once and clears the caller's handle. When any allocation fails the operation reports failure, nothing is leaked or freed twice, and the graph can still be released safely. Invalid orders or repeated initialisation are rejected without change.",
 ['inputs','fault_sequences'],"all orders, all capacity requests, every allocation failing or succeeding",
 "Tests never make allocations fail and never check the state after reinitialisation.",
 [GU],[('gp_New, gp_InitGraph, gp_ReinitializeGraph, gp_EnsureArcCapacity, gp_Free, _ClearGraph',GU)],['state after each call, allocator balance'])
p('C18','Adjacency-list and matrix text output states exactly the graph that was given',
 "Writing a graph as an adjacency list or adjacency matrix emits the order and, for each vertex, exactly its neighbors (adjacency order for lists; a set upper-triangle bit exactly for adjacent pairs for matrices), with directed arcs represented or refused as documented. Reading the text back gives a graph with the same edges, and reading never stores an edge outside the vertex range. Text that ends early, is not numeric where a number is due, names a vertex out of range, or violates the order the format requires is reported as an error rather than accepted or looped on.",
 ['inputs'],"all graphs, and all texts offered to the readers",
 "Tests read and write a handful of well-formed files.",
 ['c/graphLib/io/graphIO.c'],[('_ReadAdjList/_ReadAdjMatrix/_ReadLEDAGraph/_WriteAdjList/_WriteAdjMatrix','c/graphLib/io/graphIO.c')],['text written and graph read'])
p('C19','Drawing: accepted visibility representations are valid and rendered in bounds',
 "When the visibility-representation check succeeds, vertex rows and edge columns are distinct and in range, every edge spans exactly to the rows of its endpoints inside their horizontal ranges, and no edge crosses a vertex that is not its endpoint. Drawing a planar graph yields such a representation, and rendering an accepted one writes only inside its character grid and shows every vertex as a labelled bar and every edge as an unbroken line, nothing else.",
 ['inputs'],"all graphs with all assignments of drawing positions, valid or corrupted",
 "Tests only render a few drawings produced by the algorithm; the checker never sees an invalid representation.",
 ['c/graphLib/planarityRelated/graphDrawPlanar.c'],[('_CheckVisibilityRepresentationIntegrity, _RenderToString','c/graphLib/planarityRelated/graphDrawPlanar.c')],['return code of the check, rendered text'])
p('C20','Embedding primitives rearrange adjacency lists without losing or altering edges',
 "Embedding one back edge moves exactly that edge into the two adjacency lists at the requested external-face sides; merging two copies of a vertex concatenates their lists and reassigns every transferred edge's endpoint; inverting a vertex reverses its list and nothing else. No primitive creates, duplicates or drops an edge.",
 ['inputs','histories'],"all well-formed partial embeddings and all admissible arguments of the primitives",
 "Tests only see final embeddings, for which compensating errors or unexercised list shapes stay invisible.",
 ['c/graphLib/planarityRelated/graphEmbed.c'],[('_EmbedBackEdgeToDescendant, _InvertVertex, _MergeVertex','c/graphLib/planarityRelated/graphEmbed.c')],['adjacency lists before and after'])
p('C21','Obstruction isolation keeps exactly the marked subgraph',
 "The clean-up that ends obstruction isolation deletes exactly the edges that were not marked and keeps exactly the marked ones with their endpoints, after reinstating the not yet embedded edges; marking a path along the tree or a face marks exactly the vertices and edges of that path.",
 ['inputs'],"all partially embedded graphs and all markings",
 "Tests check only final obstructions on sample graphs.",
 ['c/graphLib/planarityRelated/graphIsolator.c'],[('_DeleteUnmarkedVerticesAndEdges, _ClearVisitedFlags and marking helpers','c/graphLib/planarityRelated/graphIsolator.c')],['edges remaining after isolation'])
p('C22','The embedder decides planarity and outerplanarity correctly with a certificate',
 "For every input graph the embedder reports 'embedded' exactly if the graph is planar (outerplanar when so asked) and 'nonembeddable' otherwise, and in each case leaves a certificate (embedding or forbidden subdivision) that its own integrity check accepts.",
 ['inputs'],"all graphs",
 "Tests use a few dozen sample graphs and small exhaustive counts.",
 ['c/graphLib/planarityRelated/graphEmbed.c','c/graphLib/planarityRelated/graphNonplanar.c','c/graphLib/planarityRelated/graphIsolator.c'],[('gp_Embed','c/graphLib/planarityRelated/graphEmbed.c')],['return code and resulting graph'])
p('C23','Subgraph-homeomorphism searches find K2,3, K4 and K3,3 exactly when present',
 "With a homeomorphism search attached, the embedder reports a found subgraph exactly when the input contains a subdivision of the sought graph and leaves such a subdivision as a subgraph of the input.",
 ['inputs'],"all graphs",
 "Tests use a few sample graphs and small exhaustive counts.",
 ['c/graphLib/homeomorphSearch/graphK23Search.c','c/graphLib/homeomorphSearch/graphK33Search.c','c/graphLib/homeomorphSearch/graphK4Search.c'],[('gp_Embed with a search extension','c/graphLib/homeomorphSearch')],['return code and resulting graph'])
p('C24','Command letters and API flags select the documented algorithm everywhere',
 "Each algorithm letter accepted by the command line and menus selects the embed flags, the attached extension, the displayed name and the output naming of that one documented algorithm, and for an unknown letter no algorithm is run. Byte-wise file comparison helpers report equality exactly when contents are equal up to line-ending conventions.",
 ['inputs'],"all characters as command, all pairs of file contents",
 "Tests run a subset of the letters on one graph each.",
 ['c/planarityApp/planarityUtils.c'],[('GetEmbedFlags, GetAlgorithmName, AttachAlgorithm, TextFileMatchesString, TextFilesEqual','c/planarityApp/planarityUtils.c')],['flags, names and comparison results'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(d)+'\n' for d in P))
