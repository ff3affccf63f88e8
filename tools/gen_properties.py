#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
PG="src/graph/planar_graph.rs"; UT="src/geometry/utils.rs"; PO="src/geometry/polygon.rs"; LI="src/geometry/line.rs"
V="src/math/vector.rs"; B="src/math/bivector.rs"; T="src/math/trivector.rs"; R="src/math/rotor.rs"; BL="src/math/blade.rs"; FO="src/fold/fold.rs"; SP="src/math/space.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
gs=[("nodes","positions and data of the crease-pattern vertices, addressed by slot",PG+" PlanarGraph::nodes"),("edges","pairs of node slots with crease data, addressed by slot",PG+" PlanarGraph::edges")]
gw="The only graph test adds four nodes and two crossing edges and asserts nothing; "

p("G01","Adding nodes and edges keeps the graph planar",
 "After any sequence of node and edge insertions and removals, two edges of the planar graph meet only at an endpoint node they share, and no node lies in the interior of an edge (up to f32 rounding of the coordinates). This includes new edges that cross several edges, pass through existing nodes, run through a node where several edges meet, touch another edge end-on or partly overlap existing edges, and new nodes placed on existing edges.",
 ["histories","inputs"],"every finite sequence of add-node/add-edge/remove-node/remove-edge calls on finite positions whose features are not within rounding distance of each other",
 gw+"planarity has to hold for every sequence and every relative position of the inserted segments.",
 [PG,UT],[("edge splitting on insertion",PG+" add_edge/split_edges_along_edge"),("edge splitting at a new node",PG+" add_node/split_edges_at_node"),("point-on-segment and segment intersection tests",UT)],["get_nodes","get_edges"],gs)
p("G02","Insertions draw exactly the requested segments",
 "After adding an edge between two existing nodes, the set of points covered by the graph's edges is exactly the previously covered set plus the straight segment between those two nodes; after adding a node, the covered set is unchanged. No part of an existing or requested segment is lost and nothing is drawn that was not asked for (up to f32 rounding); the only nodes that appear are the requested one and the points where the new edge crosses existing edges.",
 ["histories","inputs"],"every insertion in every history of graph operations on finite, well-separated positions",
 gw+"coverage depends on which edges are split, in which order and where.",
 [PG,UT],[("in-place replacement of split edges",PG+" split_edges_at_node"),("intersection collection",PG+" split_edges_along_edge"),("duplicate point removal",UT+" unique_points_among")],["get_nodes","get_edges"],gs)
p("G03","Crease and node data survive splitting and deletion",
 "Every edge piece that results from splitting carries the data of the edge it is a piece of: pieces of older edges keep their data, pieces of the new edge carry the data given to the insertion, and a stretch that was already drawn keeps its old data. A node keeps its position and data from the moment it is added until it is removed, whatever is added or removed around it; a node created at a crossing carries default data.",
 ["histories"],"every history of graph operations with arbitrary distinct data on nodes and edges",
 "No test uses edge or node data other than the unit type.",
 [PG],[("data copied to both halves of a split edge",PG+" split_edges_at_node"),("default data for crossing nodes",PG+" split_edges_along_edge"),("compaction on node removal",PG+" remove_node")],["get_edges().get_data()","Debug of nodes"],gs)
p("G04","The graph stays well formed under any history",
 "After any sequence of operations, with valid or invalid arguments, no operation has panicked, every edge refers to two different existing nodes, no two nodes have the same position, and no two edges join the same pair of nodes (as long as separate features are farther apart than f32 rounding). Adding a node at the position of an existing node returns the existing node instead of creating another.",
 ["histories","inputs"],"every sequence of add/remove/query calls, with in-range and out-of-range indices, on finite positions",
 gw+"deletions are not tested at all.",
 [PG],[("duplicate-node check",PG+" add_node"),("duplicate-edge check",PG+" has_edge_between_nodes"),("index remapping",PG+" remove_node"),("slot replacement",PG+" remove_edge")],["get_nodes","get_edges"],gs)
p("G05","Removing an edge removes it and nothing else but stray nodes",
 "Removing an existing edge deletes exactly that edge, together with each of its endpoints that has no other incident edge; all other nodes and edges remain with their positions, endpoints and data. This holds for every edge slot, including the last one and the only one.",
 ["histories","inputs"],"every reachable graph and every valid edge index",
 "There is no test that removes an edge.",
 [PG],[("swap with the last edge",PG+" remove_edge"),("stray-node removal",PG+" remove_edge/remove_node")],["get_nodes","get_edges"],gs)
p("G06","Removing a node removes its edges and the nodes they strand",
 "Removing an existing node deletes exactly that node, all edges incident to it, and every neighbouring node left without any edge by this; all other nodes and edges remain, in their original relative order, with their positions, endpoints (after renumbering) and data. This holds for every node, including isolated ones.",
 ["histories","inputs"],"every reachable graph and every valid node index",
 "There is no test that removes a node.",
 [PG],[("marking of incident edges and stray neighbours",PG+" remove_edges_incident_to_node"),("old-to-new index map",PG+" remove_node")],["get_nodes","get_edges"],gs)
p("G07","Reported changes match what actually changed",
 "The lists returned by an insertion name exactly the edge slots whose edge was created or altered and exactly the nodes newly created at crossings (adding a node also returns the slot of that node), and slots not listed are untouched. The lists returned by a removal name every slot, numbered as before the removal, whose node or edge (compared by position, endpoint positions and data) was deleted or replaced by another one.",
 ["histories","inputs"],"every mutating call in every history of graph operations",
 "No test looks at a return value of a graph operation.",
 [PG],[("changed-edge lists",PG+" add_node/add_edge"),("changed ranges",PG+" remove_node/remove_edge")],["return values of add_node, add_edge, remove_node, remove_edge"],gs)
p("G08","Lookups agree with the graph's contents",
 "At every point of every history the lookups describe the stored graph: counts equal the list lengths, the node/edge at an index exists (and is returned) exactly for indices below the count, the edge-between-two-nodes test is true exactly for adjacent pairs in either order, and the incident-edge count equals the number of edges having that node as an endpoint (and is absent for a missing node).",
 ["histories","inputs"],"every reachable graph and every index, in range or not",
 "No test calls a lookup.",
 [PG],[("has_node_at_index/has_edge_at_index",PG),("has_edge_between_nodes",PG),("number_of_edges_incident_to",PG)],["the query methods"],gs)
p("G09","Refused or redundant requests leave the graph unchanged",
 "Adding an edge to a missing node fails with the no-such-vertex error; adding an edge that already exists (in either direction) or joins a node to itself succeeds with empty change lists; adding a node where one exists returns its index and an empty list; removing a missing node or edge returns empty lists. In all these cases the graph is exactly as before.",
 ["histories","inputs"],"every reachable graph and every invalid or redundant request",
 "No test makes an invalid or redundant request.",
 [PG],[("existence checks",PG+" add_edge"),("nearest-node check",PG+" add_node"),("index checks",PG+" remove_node/remove_edge")],["return values and get_nodes/get_edges before and after"],gs)
p("G10","The drawn pattern does not depend on drawing order",
 "Drawing the same set of segments yields the same planar arrangement - the same node positions and the same adjacent pairs, up to rounding and numbering - whatever the order in which they are added and in whichever direction each is drawn. The same holds when the whole drawing is mirrored, rotated by a quarter turn or shifted.",
 ["histories","inputs"],"every set of segments with well-separated features and every permutation, reversal and rigid grid motion of it",
 "The tests build one graph in one order.",
 [PG,UT],[("splitting on insertion",PG+" add_node/add_edge")],["get_nodes","get_edges"],gs)
p("G11","Equal histories give equal graphs and copies are independent",
 "What an operation does to a planar graph depends only on that graph and the arguments: the same sequence of operations from an empty graph always gives the same nodes and edges (positions, endpoints, data) in the same slots and the same reported changes, whatever data types the graph stores and whatever happens to other graphs in between. A copy of a graph equals the original when it is made; afterwards operations on either leave the other untouched, and each continues exactly as a graph built by its own history.",
 ["histories"],"every history (including refused requests and positions within rounding of each other), every point at which a copy is made, every interleaving of operations on original, copy and unrelated graphs",
 "The test never copies a graph nor repeats a history.",
 [PG],[("Clone of the graph, all operations",PG)],["get_nodes","get_edges","returned lists"],gs)

p("P01","Polygons are stored counter-clockwise with their vertices intact",
 "Constructing a polygon from at least three vertices of a simple polygon, given in either orientation, succeeds and stores exactly the given vertices in the given cyclic order if that is counter-clockwise and in the reversed order otherwise, so that the stored polygon is always counter-clockwise. Fewer than three vertices are refused with an error.",
 ["inputs"],"every simple polygon (convex or not, any starting vertex, any orientation, with or without straight angles) and every list of fewer than three points",
 "The tests construct two counter-clockwise polygons.",[PO],[("orientation normalisation",PO+" Polygon::new"),("signed area",PO+" area_poly2")],["Polygon::new","get_vertices"])
p("P02","Polygon area is the enclosed area",
 "The reported area of a simple polygon equals the area it encloses (within f32 rounding), is never negative, and depends neither on the starting vertex nor on the orientation in which the vertices were given. It equals the sum of the areas of the two parts when the polygon is cut along a diagonal.",
 ["inputs"],"every simple polygon with finite coordinates","One right triangle is tested.",[PO],[("fan of signed triangle areas",PO+" area_poly2")],["area"])
p("P03","Scaling and translating act on every vertex exactly once",
 "Uniformly scaling a polygon by a factor multiplies every vertex coordinate by that factor and its area by the square of the factor; translating adds the vector to every vertex and keeps the area. The order and number of vertices never change, the reported center is the average of all vertices, and it moves along with scaling and translation.",
 ["inputs","histories"],"every simple polygon and every sequence of scalings (non-zero, positive or negative) and translations","No test scales, translates or asks for a center.",[PO],[("uniform_scale, translate, center",PO)],["get_vertices","area","center"])
p("P04","Regular polygons are regular",
 "A regular polygon with n >= 3 sides has exactly n vertices, all at the given circumradius from the given center, with the first one in the +x direction and consecutive ones a full turn divided by n apart counter-clockwise. Its area is n/2 r^2 sin(2 pi/n) and its center is the given center (within f32 rounding).",
 ["inputs"],"every n >= 3, positive radius and finite center","No test constructs a regular polygon.",[PO],[("Polygon::regular",PO)],["get_vertices","area","center"])
p("P05","Diagonals are recognised exactly",
 "For every simple polygon and any two of its vertices, the diagonal test is true exactly when the segment joining them is an internal diagonal: the vertices are different and not adjacent, the segment meets the boundary only in these two vertices, and it runs through the interior. The answer does not depend on the order of the two vertices nor on which vertex the polygon's list starts with.",
 ["inputs"],"every simple polygon with exactly representable coordinates (including collinear vertices, reflex vertices, vertices lying on the candidate segment) and every pair of vertices","The test prints diagonals of one polygon without asserting anything.",[PO],[("in_cone",PO),("diagonal",PO),("intersect",PO)],["diagonal"])
p("P06","Triangulation partitions the polygon",
 "Triangulating any simple polygon with n vertices terminates and yields exactly n-2 triangles, each counter-clockwise with positive area and with vertices of the polygon as corners, whose interiors are disjoint and which together cover exactly the polygon. Each polygon edge is an edge of exactly one triangle and every other triangle edge is shared by exactly two; the polygon itself is not modified.",
 ["inputs"],"every simple polygon with exactly representable coordinates, convex or not, with or without straight angles, any starting vertex","The test prints the number of triangles of one polygon without asserting it.",[PO],[("ear clipping with ear-status updates",PO+" triangulate"),("diagonal test",PO+" diagonal")],["triangulate"])
p("P07","Orientation predicates tell the true side of a line",
 "The signed doubled triangle area is the exact cross product when that is representable, is positive for counter-clockwise triples and negative for clockwise ones, changes sign when two points are swapped and is unchanged by cyclic rotation and translation of the points. The left, left-or-on and collinear tests hold exactly when the third point is strictly left of, not right of, or on the oriented line through the first two.",
 ["inputs"],"every triple of points with exactly representable cross products, including collinear and coincident ones; and every clearly non-collinear triple of finite f32 points","Six hand-picked triples are tested.",[PO],[("area2, left, left_on, collinear",PO)],["area2","left","left_on","collinear"])
p("P08","Segment intersection predicates are exact",
 "For any two non-degenerate segments the intersection test is true exactly when they share at least one point, and the proper-intersection test exactly when they cross at a single point interior to both; the betweenness test is true exactly when the point lies on the closed segment. All are independent of the order of the two segments and of their endpoints.",
 ["inputs"],"every pair of non-degenerate segments and every point with exactly representable cross products, including touching, collinear, overlapping, contained, vertical and horizontal ones","Two betweenness examples are tested; intersection is not.",[PO],[("intersect_prop, between, intersect",PO)],["intersect_prop","between","intersect"])
p("P09","A polygon always answers for its current vertices",
 "After any sequence of scalings, translations, copies and queries, a polygon's vertices, area, center, diagonals and triangulation are those of a polygon newly constructed from its current vertices: no query changes the polygon, no answer is left over from before a transformation, and transforming a copy leaves the original (and the other way round) untouched.",
 ["histories","inputs"],"every simple polygon and every history of non-zero scalings (of either sign), translations, copies and queries with exactly representable coordinates",
 "No test transforms or copies a polygon.",[PO],[("uniform_scale, translate, center, area, diagonal, triangulate, Clone",PO)],["get_vertices","area","center","diagonal","triangulate"])

p("U01","Segment intersection points are found exactly when they exist",
 "For two segments that are not parallel, the computed intersection is present exactly when the segments share a point (endpoints included) and absent otherwise, and the point returned is that common point within f32 rounding. Swapping the segments or their endpoints does not change the answer; distinct parallel lines never yield a point.",
 ["inputs"],"every pair of non-parallel segments that is not within rounding of the touching/missing boundary (exact touching included where coordinates make it exact), and every pair of parallel segments on different lines","No test computes an intersection.",[UT],[("calculate_line_segment_intersection",UT)],["calculate_line_segment_intersection"])
p("U02","Infinite lines intersect wherever they are not parallel",
 "For two segments with clearly different directions, the line intersection is the unique common point of the two infinite lines through them, whether or not it lies within the segments; for exactly parallel lines it is absent. Swapping the lines or the points defining each gives the same point within rounding.",
 ["inputs"],"every pair of lines given by clearly non-parallel or exactly parallel segments of reasonable length","No test computes a line intersection.",[UT],[("calculate_line_intersection",UT)],["calculate_line_intersection"])
p("U03","Perpendicular feet, midpoints and bisectors are what they claim",
 "The midpoint of two points is their average. The perpendicular point of p with respect to segment ab is the point of line ab nearest to p. The perpendicular bisector returns the midpoint together with a point at the given distance from segment ab (on either side), which is equally far from both ends, for every orientation of the segment including horizontal and vertical.",
 ["inputs"],"every non-degenerate segment, every point and every offset","None of the three functions is tested.",[UT],[("calculate_perpendicular_point, calculate_midpoint, calculate_perpendicular_bisector",UT)],["the three functions"])
p("U04","The point-on-segment test is right for inner, end and outside points",
 "A point on a segment strictly between its ends (exactly, or as close as f32 can represent it) is reported to be on the segment; an end point is reported on it exactly when endpoints are included; a point clearly off the segment - to the side or beyond an end - is reported off it. The answer does not depend on the direction of the segment.",
 ["inputs"],"every non-degenerate segment, every point on it, at its ends, beside it and beyond it, and both endpoint modes","The test is not exercised by any test.",[UT],[("is_on_line_segment",UT)],["is_on_line_segment"])
p("U05","Triangle incenters are equidistant from the three sides",
 "For every non-degenerate triangle the incenter lies inside it at the same distance from all three side lines, and the reported inradius is that distance (the doubled area divided by the perimeter). Triangles with coincident or exactly collinear corners are reported degenerate and have no incenter; clearly non-degenerate triangles are never reported degenerate.",
 ["inputs"],"every triangle with finite corners, in any corner order, except those within rounding of being degenerate","One triangle and one horizontal degenerate triangle are tested; the inradius is not.",[UT],[("is_degenerate_triangle, calculate_triangle_incenter",UT)],["both functions"])
p("U06","Nearest-point and uniqueness queries are correct",
 "The nearest-point query returns the index of a point of the list with the smallest distance to the target (the first such one) and that distance. The unique subset of a point list keeps, in order, one representative of each cluster of coinciding points and drops only points that coincide with a kept one; two points are close exactly when their distance is at most the machine epsilon.",
 ["inputs"],"every finite target and every list of points, with repeated and distinct points","Neither function is tested.",[UT],[("find_closest_to, close_to, unique_points_among",UT)],["the three functions"])
p("U07","Parallel segments are recognised in either direction",
 "Segments with exactly the same or exactly opposite direction are reported parallel wherever they lie and however long they are, and segments whose directions differ by more than a small angle (a tenth of a degree) are not. The answer is unchanged by swapping the segments or the ends of either.",
 ["inputs"],"every pair of non-degenerate segments that are exactly parallel or differ by more than 0.1 degrees","One horizontal pair is tested.",[UT],[("parallel",UT)],["parallel"])
p("U08","Line membership in space is decided correctly",
 "An infinite line given by a point and a non-zero direction contains exactly the points obtained from its point by moving any amount, forwards or backwards, along the direction; a point off the line in any coordinate is not contained. Points are judged up to the rounding of their coordinates, whatever the scale. This holds for every orientation of the line, for its own base point, and with the direction scaled or reversed.",
 ["inputs"],"every line and point, on the line up to one f32 rounding of the coordinates or clearly off it","Three points are tested against one line in the plane z = 0.",[LI],[("Line::contains via the wedge product",LI),("wedge",V)],["Line::contains"])

p("A01","All products agree with the Clifford algebra of 3-space",
 "Each dot, wedge and geometric product offered between scalars, vectors, bivectors, trivectors and rotors equals the corresponding grade part of the geometric product of the two operands in the algebra generated by e1, e2, e3 with ei^2 = 1 and ei ej = -ej ei (for two bivectors, the wedge is the grade-2 part). Results are exact for integer components and within rounding for floating-point ones.",
 ["inputs"],"all operand pairs of all offered products, with arbitrary integer, f32 and f64 components","The tests use a handful of fixed vectors, mostly (0,1,2) and (3,4,5), and compare products with each other rather than with the algebra.",[V,B,T,R],[("Contraction, Exterior and Mul implementations",V+", "+B+", "+T+", "+R)],["dot","wedge","*"])
p("A02","Vectors, bivectors, trivectors and rotors form vector spaces",
 "Addition, subtraction, negation, scalar multiplication and scalar division act on every component, with the zero element as identity, and each compound-assignment form has the same effect as the corresponding binary operator. Unit elements have a single component equal to one, and an element is reported zero exactly when all its components are zero.",
 ["inputs"],"all elements of the four types with arbitrary integer and floating components and all scalars","Only vector addition and subtraction are tested, on one pair.",[V,B,T,R],[("Add, Sub, Neg, Mul<T>, Div<T> and *Assign implementations",V+", "+B+", "+T+", "+R),("Zero",V+", "+B+", "+T)],["operators"])
p("A03","Norms, normalisation and inverses obey their definitions",
 "The norm of a vector, bivector, trivector or rotor is the square root of the sum of its squared components (so it is non-negative and scales with the absolute value of a factor), and its squared norm is the square of that. Normalising any non-zero element yields an element of norm one that is a positive multiple of it; the inverse of any non-zero vector, bivector or trivector, and of any unit rotor, multiplies with it from either side to the scalar one.",
 ["inputs"],"all non-zero elements whose squared components neither overflow nor underflow","One or two elements per type are tested; the rotor norm is only printed.",[V,B,T,R,SP],[("Norm implementations",V+", "+B+", "+T+", "+R)],["norm","norm_squared","normalize","inverse"])
p("A04","Angle-and-plane rotors rotate by that angle in that plane",
 "A rotor built from an angle and a unit plane rotates every vector's part in the plane by that angle, from the plane's first direction towards its second, and leaves the part perpendicular to the plane unchanged, for every angle of either sign and of any size. The xy, xz and yz constructors do so from x to y, x to z and y to z; rotation preserves lengths, angles and handedness, and the identity rotor leaves every vector unchanged.",
 ["inputs"],"all angles, all unit planes and all vectors (within rounding)","Two rotors (90 degrees in xy, 45 degrees in yz) are tested on three vectors with non-negative components.",[R],[("from_angle_plane, from_*_rotation, rotate, identity",R)],["rotate"])
p("A05","Composing rotors composes rotations",
 "The product of two unit rotors is a unit rotor that acts as the right one followed by the left one, products are associative, and a rotor's inverse undoes its rotation exactly. Rotating by a rotor equals the two-sided product of the rotor, the vector and the rotor's inverse, and a rotor and its negation rotate alike.",
 ["inputs","histories"],"all sequences of unit rotors and all vectors (within rounding)","Composition is tested only for a rotor with its own inverse.",[R],[("Mul for Rotor3",R),("inverse, rotate",R)],["*","inverse","rotate"])
p("A06","The rotor between two vectors carries one direction onto the other",
 "For any two non-zero vectors that are not opposite, the rotor built from them is a unit rotor that rotates the direction of the first onto the direction of the second, within the plane they span and by the angle between them, leaving vectors perpendicular to both unchanged. It does not depend on the lengths of the two vectors, and swapping them gives the inverse rotor.",
 ["inputs"],"all pairs of non-zero vectors that are not (nearly) opposite, of any lengths","One pair of unit basis vectors is tested.",[R],[("from_vectors",R)],["from_vectors","rotate"])
p("A07","Projection, reflection and angle follow Euclidean geometry",
 "The projection of u onto a non-zero v is the multiple of v closest to u; the reflection of u about v keeps u's component along v and negates the perpendicular one, and reflecting twice restores u. The angle between two non-zero vectors is the number in [0, pi] whose cosine is their normalised dot product - always a number, also for equal, parallel and opposite vectors - and is symmetric and independent of their lengths.",
 ["inputs"],"all vectors u and all non-zero vectors v, including parallel, opposite and orthogonal ones","One or two pairs per function are tested, none parallel.",[V],[("project, reflect, angle",V)],["project","reflect","angle"])
p("A08","Approximate equality compares every component",
 "Approximate comparison (absolute, relative or in units of last place) of two vectors, bivectors, trivectors or rotors holds exactly when it holds for every pair of corresponding components with the same tolerances, with the default tolerances of the component type. It is reflexive and symmetric for finite values, and its negation is its exact complement. Plain equality, likewise, holds exactly when all components are equal.",
 ["inputs"],"all pairs of elements of the four types, including pairs differing in a single component, and all tolerances","The tests use these comparisons as a tool and never check that they can fail.",[V,B,T,R],[("AbsDiffEq, RelativeEq, UlpsEq implementations",V+", "+B+", "+T+", "+R)],["abs_diff_eq","relative_eq","ulps_eq"])
p("A09","Basis-blade counts are binomial coefficients",
 "The number of basis k-blades of an n-dimensional space is the binomial coefficient n choose k, including 1 for k = 0 and 0 for k > n, and the total number of basis blades is 2^n, which is the sum of these over all k. Neither fails for any dimension and grade for which the result (for the former, its product with the smaller of k and n-k) fits the integer type.",
 ["inputs"],"every n and k whose result fits, grades next to 0 or n of very large spaces included; all n up to 63 for the total","Neither function is tested.",[BL],[("factorial, binomial_coefficient, number_of_basis_blades, total_number_of_basis_blades",BL)],["number_of_basis_blades","total_number_of_basis_blades"])

p("F01","FOLD data survives a write-read round trip",
 "Serialising crease-pattern data to FOLD JSON and loading it again yields the same data in every field except the unsupported multi-frame field: metadata, coordinates, adjacency, assignments, fold angles, lengths, faces and both layer orders. The serialised form uses the key names of the FOLD specification, so that what is written can be read.",
 ["inputs"],"all values of the data structure with finite numbers and arbitrary Unicode strings","The FOLD module has no tests.",[FO],[("serde derive with renamed fields",FO+" Fold")],["serde_json","Fold::from_file"])
p("F02","Loading a FOLD file delivers exactly its contents",
 "Loading a valid single-frame FOLD file puts the value of every supported key (under its name in the FOLD specification; edge lengths and fold angles in the singular or the plural) into the corresponding field, unchanged apart from rounding numbers to f32, leaves fields whose keys are absent at their empty defaults, and ignores unknown or custom keys. The result does not depend on key order, whitespace, the notation of real numbers (including a fractional spec version) or string escapes, nor on where the file lies (any path the file system offers) and what was loaded from it before, and the file is not modified.",
 ["inputs"],"all valid FOLD documents using any subset of the supported keys plus arbitrary unknown keys, in any order and layout","The FOLD module has no tests.",[FO],[("serde defaults and renames",FO+" Fold"),("from_file",FO)],["Fold::from_file"])
p("F03","Bad FOLD files are refused with an error, never a crash",
 "Loading a path that does not exist or cannot be read, a file that is not valid UTF-8, or one whose content is not a valid FOLD JSON document (truncated, corrupted, wrongly typed or arbitrary bytes) returns an error. It never panics and never returns data for such a file.",
 ["inputs","fault_sequences"],"all byte strings as file contents and all kinds of unreadable paths","The FOLD module has no tests.",[FO],[("error propagation",FO+" from_file")],["Fold::from_file"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P),"properties")
