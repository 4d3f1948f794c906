import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
F="src/outputs/formats/"
p("C01","Triangle-list output is the exact expansion of the triangle fans",
 "When a list format is used, the caller's list receives exactly one triangle for every triangle of every fan the triangulation reports, in the order reported: a fan a,b,c,d,e becomes (a,b,c), (a,c,d), (a,d,e), with those very vertices and that rotational order. Starting a new fan never reuses vertices of the previous one, and no triangle is added, dropped, merged or duplicated, whatever the number and length of the fans.",
 ["histories","inputs"],"every sequence of start-fan / extend-fan steps of any length, for every index type, polygon list and list container",
 "format::fan_to_list only asserts the number of triangles of one 8-vertex star (6); it never looks at the vertices, and deindexed_list only looks at a type. Fan lengths and fan-to-fan transitions depend on polygon and random insertion order.",
 [F+"fan_to_list.rs",F+"indexed_list.rs",F+"generic_list.rs","src/outputs/list_format.rs"],
 [("fan-to-list adapter remembers fan root and last vertex",F+"fan_to_list.rs"),("list builders forward one push per triangle",F+"generic_list.rs")],
 ["contents of the List passed to IndexedListFormat"],[("fan root / last vertex","the two vertices shared by the next triangle of the current fan",F+"fan_to_list.rs")])
p("C02","Fan output holds every fan exactly once, complete and in order",
 "When a fan format is used, a successful triangulation delivers every reported fan exactly once to the caller's collection, in the order reported, each one holding its three initial vertices followed by its extensions in order. This includes the first and the last fan, and nothing else is delivered.",
 ["histories","inputs"],"every sequence of start-fan / extend-fan steps ended by a successful finish, for every index type, polygon list, fan type and collection",
 "The tests triangulate a few shapes into fans and check types or only that the call succeeds; no test compares the fans delivered with the fans reported.",
 [F+"indexed_fan.rs",F+"deindexed_fan.rs",F+"generic_fans.rs"],
 [("current fan is kept aside and flushed on the next fan and on finish",F+"generic_fans.rs")],["contents of the Fans passed to IndexedFanFormat / DeindexedFanFormat"])
p("C03","Delimited output can be split back into the fans unambiguously",
 "With the delimited format the caller's collection receives the fans' indices in order, with exactly one delimiter between two consecutive fans, one delimiter between earlier content and the first fan when the collection was not empty, and none at the end or before the first fan of an empty collection. A vertex index equal to the delimiter is never written: the step that would write it fails with the delimiter-clash error, and no other step fails.",
 ["histories","inputs"],"every fan sequence, every delimiter value, every index type and every initial collection content",
 "format::delimited_fan checks that at least one delimiter appears for one polygon with an empty collection and a delimiter that cannot clash.",
 [F+"delimited_fan.rs"],[("delimiter push before every later fan, guard on each index",F+"delimited_fan.rs")],["contents of the collection passed to DelimitedFanFormat","TriangulationError::FanBuilder(IndexMatchesDelimiter)"])
p("C04","De-indexed output is the indexed output with every index looked up",
 "The de-indexed formats store, for every index reported, a copy of the vertex that the triangulated polygon list itself returns for exactly that index, position by position; the vertex values are never taken from another index, another polygon list or a stale lookup.",
 ["histories","inputs"],"every fan sequence, every polygon list implementation and index type",
 "format::deindexed_* check only that the element type is a coordinate pair.",
 [F+"deindexed_fan.rs",F+"deindexed_list.rs"],[("lookup through the polygon list on every step",F+"deindexed_fan.rs")],["contents of the containers passed to DeindexedFanFormat / DeindexedListFormat"])
p("C05","A failed triangulation leaves the caller's container as it was",
 "If triangulation fails at any point after it was given an output container, and at whichever step the failure happens, the container ends up holding exactly the elements it held before the call. On success the earlier elements are still there, unchanged and in front of the new ones.",
 ["histories","fault_sequences","inputs"],"every builder provided by the crate, every initial container content (whole triangles for flat lists), every step at which the error can occur, including the first triangle",
 "No test inspects a container after a failure and none starts from a non-empty one; error_propagation uses a mock builder without a container.",
 [F+"generic_fans.rs",F+"generic_list.rs",F+"delimited_fan.rs",F+"fan_to_list.rs","src/outputs/list.rs","src/outputs/fan.rs"],
 [("initial length recorded before the first write, truncated to on failure",F+"generic_list.rs"),("same",F+"generic_fans.rs"),("same, including a failure on the first triangle",F+"delimited_fan.rs")],["the caller's Vec after an Err"])
p("C06","Vectors used as outputs honour the container contract",
 "For every vector type usable as an output (flat list, list of 3-arrays, list of 3-tuples, list of fans, and mutable references to any of them), adding appends exactly one triangle or fan with its vertices in the order given, the reported length is the number of whole triangles or fans, truncating to a length keeps exactly that many from the front, and the empty test agrees with the length. A vector used as a fan starts as the three given vertices and grows by exactly one vertex at the end per extension.",
 ["inputs","histories"],"every element type, every content and every length argument",
 "The containers are only exercised through small triangulations whose contents are not examined; truncation is never exercised.",
 ["src/outputs/list.rs","src/outputs/fan.rs"],[("List impls for Vec<V>, Vec<[V;3]>, Vec<(V,V,V)>, &mut L","src/outputs/list.rs"),("Fan / Fans impls","src/outputs/fan.rs")],["List, Fan and Fans methods"])
p("C07","Builders see one well-formed lifecycle: initialise, fans, then build or fail",
 "For every triangulation the format is initialised at most once, with the first triangle, before anything else is asked of the builder; afterwards the builder only receives start-fan and extend-fan steps, and once any step has failed it receives no further step. The lifecycle ends by exactly one build on overall success, or exactly one fail carrying the error being returned when an error occurs after initialisation; a builder whose initialisation or build step itself failed gets neither.",
 ["histories","fault_sequences","inputs"],"every polygon list, every format, every point at which a builder or the algorithm can fail",
 "error_propagation injects one fault per step kind for one star polygon and asserts only that fail was or was not called at least once; double calls, calls after an error and faults at other positions are not observed.",
 ["src/fan_builder_state.rs","src/trapezoidation.rs","src/monotone.rs",F+"fan_to_list.rs",F+"reverse_fan.rs"],
 [("state machine holding the format or the builder","src/fan_builder_state.rs"),("single completion point","src/trapezoidation.rs")],["calls received by a user-supplied FanFormat/FanBuilder/ListFormat/ListBuilder"])
p("C08","No error is swallowed and every error reaches the caller unaltered",
 "If a builder step returns an error, the triangulation call returns exactly that error value as the builder error; if building the trapezoid structure fails, that error is returned as the trapezoidation error; and any internal inconsistency detected on the way is returned as an internal error. No call that met an error ever returns success, and no error is replaced by another.",
 ["fault_sequences","inputs","histories"],"every fallible step and every internal consistency test, at any position of any triangulation",
 "error_propagation reaches four fault points of one polygon; none of the internal error sites is reached by a test that looks at the error.",
 ["src/trapezoidation.rs","src/monotone.rs","src/fan_builder_state.rs","src/errors.rs","src/nexus.rs","src/inputs/polygon_list.rs"],
 [("? propagation and single completion point","src/trapezoidation.rs"),("error conversion","src/errors.rs")],["Result of triangulate / trapezoidize"])
p("C09","Every fan is handed over in the winding its builder asks for",
 "Within a monotone piece, each fan is handed to the builder so that all its triangles have the winding the builder declares, for both declarations, both sides on which the chain can lie, and both ways a fan can grow; the vertex shared by all its triangles comes first, and each extension is the next vertex of that fan. A builder asking for the opposite winding gets the same triangles, each reversed.",
 ["inputs","configurations","histories"],"both windings, left and right chains, forward and backtracking fans, every fan length",
 "reverse_winding only asserts that two outputs of a randomised algorithm differ; no test computes an orientation.",
 ["src/monotone.rs"],[("choice between immediate and deferred emission and vertex order","src/monotone.rs")],["vertex order of new_fan / extend_fan calls"],
 [("is_left_chain","side of the polygon on which the chain lies","src/monotone.rs")])
p("C10","A monotone piece of n vertices yields exactly n-2 tested triangles",
 "Each triangle handed to the builder removes exactly one vertex from its monotone piece and consists of the three vertices that passed the convexity test; a piece succeeds only when exactly two vertices remain. So a successful piece of n vertices yields exactly n-2 triangles, none twice and none untested.",
 ["inputs","histories"],"every monotone chain, every sequence of convexity-test outcomes",
 "Triangle counts are asserted for one star only; the interplay of skipping, backtracking, deferring and restarting depends on the polygon and the random insertion order.",
 ["src/monotone.rs"],[("skipped/pending stack discipline","src/monotone.rs"),("final count test","src/monotone.rs")],["number and vertices of triangles per call"])
p("C11","Adapting or reversing a format changes the winding request and nothing else",
 "Reversing a format asks for exactly the opposite winding of the wrapped format and forwards every step, argument, result and error unchanged; reversing twice asks for the original winding. Turning a list format into a fan format asks for the winding the list format declares, and formats that declare nothing ask for counter-clockwise.",
 ["configurations","programs"],"every format, user-defined ones included, and every nesting of adapters",
 "reverse_winding compares two random outputs for inequality; nested adapters and user formats with their own winding are not tested.",
 [F+"reverse_fan.rs",F+"fan_to_list.rs","src/outputs/triangle_winding.rs","src/outputs/fan_format.rs","src/outputs/list_format.rs"],
 [("WINDING constants","src/outputs/formats/reverse_fan.rs"),("TriangleWinding::reverse","src/outputs/triangle_winding.rs")],["FanBuilder::WINDING / ListBuilder::WINDING, calls forwarded"])
p("C12","Substituting the index type changes only how indices are written",
 "A polygon list with a substituted index type has the same polygons, in the same order, with every index component converted position by position, the same vertex count, and returns for a converted index the vertex of the original index. A conversion that does not fit panics; it never wraps, truncates, saturates or substitutes another index.",
 ["inputs","programs"],"every polygon list, index shape (scalar, array, pair, triple, vector) and pair of index types, in range or not",
 "index_wrapper* only convert small indices to u16 and check the type; out-of-range values, pairs, triples and vectors are never exercised.",
 ["src/inputs/polygon_list.rs","src/mappable.rs"],[("IndexWith adapters","src/inputs/polygon_list.rs"),("Mappable implementations","src/mappable.rs")],["index_with(..).iter_indices / get_vertex / vertex_count"])
p("C13","Slices, vectors and single polygons enumerate each vertex exactly once",
 "For the provided polygon types, enumeration yields every vertex of every polygon exactly once, polygon by polygon in storage order, with a boundary marker between polygons; every index yielded looks up the vertex at that position, and the vertex count equals the number of vertices enumerated. Treating a polygon as a one-element list changes neither indices, order, count nor lookups.",
 ["inputs"],"every number of polygons and of vertices per polygon, including empty ones",
 "Only a handful of small shapes and country files are enumerated, and only success of the whole call is observed.",
 ["src/inputs/polygon_list.rs","src/inputs/vertex.rs"],[("nested-vector iterator","src/inputs/polygon_list.rs"),("slice polygon","src/inputs/polygon_list.rs")],["Polygon / PolygonList methods of Vec, slices and SinglePolygon"])
p("C14","Polygon boundaries are honoured and too-small polygons are rejected",
 "The vertices between two boundary markers form one polygon, processed on its own; repeated, leading and trailing markers change nothing and the last polygon counts even without a closing marker. A polygon of one or two vertices makes the call fail with the not-enough-vertices error carrying its vertex count; larger ones are never rejected for their size, and vertices never leak from one polygon into the next.",
 ["inputs"],"every sequence of vertices and boundary markers a polygon list can produce",
 "negative::incomplete_polygon only checks that some panic happens for two vertices; marker placement is fixed by the Vec adapter in all tests.",
 ["src/trapezoidation.rs"],[("element loop closed by an extra boundary","src/trapezoidation.rs")],["result of trapezoidize for user-defined PolygonLists"])
p("C15","Success always carries output; an empty polygon list is an error",
 "Triangulating a polygon list that gives rise to no triangle at all reports the no-vertices error and never touches the format, so a success value is only ever produced by a builder that was initialised and received at least one triangle.",
 ["inputs","configurations"],"every polygon list without triangles and every format",
 "No test triangulates an empty list.",
 ["src/fan_builder_state.rs","src/trapezoidation.rs"],[("completion of an uninitialised format","src/fan_builder_state.rs")],["result of triangulate on empty input"])
p("C16","Every polygon edge enters the subdivision exactly once; chance only orders",
 "For each polygon, every vertex is joined to its successor, the last to the first, by exactly one edge; each vertex is entered exactly once; each edge is entered from its lower to its upper end. The random number generator decides only the order in which the edges of a polygon are entered, never which edges or vertices are.",
 ["inputs","schedules"],"every polygon size and every outcome of the random number generator",
 "Random order is not controlled by the tests, and no test inspects which edges were entered.",
 ["src/trapezoidation.rs"],[("shuffled list of all edge numbers, one insertion each","src/trapezoidation.rs")],["edges and vertices of the trapezoidation"])
p("C17","One consistent order of vertices and one side test, ties included",
 "Vertices are ordered by height, ties by horizontal position, everywhere the order is used, so two distinct vertices are never tied. The side test answers whether a point lies strictly left of the line through two points: at the height of the upper end it compares horizontal positions with the upper end, else at the height of the lower end with the lower end, elsewhere it compares the sign of the exact cross product; coordinates are read as given, first component horizontal and second vertical.",
 ["inputs"],"every pair of vertices and every point/line configuration, including horizontal edges and equal heights, for every coordinate type",
 "Sample shapes meet only a few tie configurations, and the tests do not look at geometry.",
 ["src/inputs/vertex.rs","src/math.rs","src/segment.rs"],[("lexicographic comparison","src/inputs/vertex.rs"),("is_left_of_line","src/math.rs")],["ordering and side decisions"])
p("C18","Success means no region was left unfinished",
 "When triangulation succeeds, every interior region that was opened during the sweep has been closed and handed over as triangles, apart from regions whose vertices all share one horizontal or one vertical coordinate; a region is never silently discarded, overwritten or handed over twice. Regions still open at the end make the call fail with an internal error.",
 ["inputs","histories"],"every trapezoidation and every traversal of it",
 "Tests only look at success; a region lost on a rare traversal still reports success.",
 ["src/trapezoidation.rs","src/monotone.rs"],[("monotone chains moved between current chain, branch stack and monotone stack","src/trapezoidation.rs"),("end-of-traversal tests","src/trapezoidation.rs")],["triangles produced when triangulate returns Ok"])
p("C19","No input can make safe callers cause undefined behaviour",
 "Whatever polygon list, index values or formats a caller supplies through the safe interface, every unchecked memory access stays in bounds and every reinterpretation of a reference is between types of identical layout: positions handed out by the crate's growing tables always refer to existing entries, and caller-supplied indices are never used unchecked.",
 ["inputs","programs","histories"],"every safe program using the crate and every input, valid or not",
 "Out-of-bounds reads without bounds checks do not fail a test by themselves; invalid input is barely tested.",
 ["src/idx.rs","src/trapezoidation.rs","src/inputs/vertex.rs","src/inputs/polygon_list.rs","src/nexus.rs"],
 [("append-only tables and typed positions","src/idx.rs"),("transparent wrappers","src/inputs/vertex.rs")],["memory safety under Miri/ASan"])
p("C20","Triangulating touches nothing but the format it was given",
 "Without the debugging feature, triangulation performs no input or output, reads no environment, clock or file, keeps no state between calls in globals or thread-locals and starts no threads, apart from drawing random numbers for the edge order; the polygon list is only read. A trapezoidation is not changed by triangulating it: it can be triangulated any number of times, with different formats and from several threads at once, each time as if it were the first.",
 ["schedules","programs","histories"],"every program using the crate, every sequence or interleaving of calls",
 "separate_trapezoidation triangulates once on one thread; hidden shared state or output is invisible to the tests.",
 ["src/trapezoidation.rs","src/inputs/polygon_list.rs","src/lib.rs"],[("shared references only, no interior mutability","src/trapezoidation.rs")],["side effects of triangulate; Send/Sync of Trapezoidation"])
# not claimed
p("C30","The triangles cover the polygons exactly and do not overlap",
 "For every polygon set meeting the documented preconditions, the triangles are non-overlapping and their union is exactly the area inside the polygons (holes excluded).",
 ["inputs","schedules"],"every valid polygon set and every random insertion order",
 "Tests check success only, on a few shapes.",
 ["src/trapezoidation.rs","src/nexus.rs","src/monotone.rs"],[("Seidel trapezoidation and monotone triangulation","src/trapezoidation.rs")],["area and overlap of the triangles"])
p("C31","Triangulation of a valid polygon set succeeds and terminates",
 "For every polygon set meeting the documented preconditions, triangulation terminates, does not panic and succeeds.",
 ["inputs","schedules"],"every valid polygon set, coordinate type and insertion order",
 "Rare geometric and rounding situations are not sampled.",
 ["src/trapezoidation.rs","src/nexus.rs","src/monotone.rs"],[("search, split and sweep loops","src/trapezoidation.rs")],["termination and result of triangulate"])
p("C32","Expected near-linear running time",
 "The expected running time for a polygon of n vertices is O(n log* n).",
 ["inputs","schedules"],"every polygon, expectation over insertion orders",
 "Tests do not measure time.",
 ["src/trapezoidation.rs","src/math.rs"],[("random order, periodic relocation of pending vertices","src/trapezoidation.rs")],["running time"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),[ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
