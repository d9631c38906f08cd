import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

I="include/walnut/"
p("C01","Boolean results select exactly the right points under every schedule",
 "For closed input solids loaded into one BSP tree, the surface delivered by traversing the tree with a union, intersection, difference, xor or single-solid filter (also nested) encloses exactly the points the set expression selects, with outward orientation. This holds whatever order facets arrive in, however adding, splitting and traversing are interleaved, whatever split-strategy setting is used, however often the tree has been traversed before, and wherever the allocator places objects.",
 ["schedules","histories","inputs","configurations"],
 "Every set of closed polyhedra (overlapping, nested, touching, coplanar, duplicated), every facet arrival order, every interleaving of add/split/traverse operations on the tree, every k-d threshold, every heap layout.",
 "The tests load one or two cubes in one fixed order and traverse once; none adds facets to an already split tree, changes the arrival order or the heap layout, or checks membership of points in the result.",
 [I+"bsp_tree.h",I+"bsp_node.h",I+"bsp_traverser.h",I+"bsp_visitor.h",I+"boolean_operation_filter.h",I+"plane_partitioner.h",I+"polygon_event_point.h",I+"bsp_polygon.h",I+"convex_polygon.h",I+"half_space3.h",I+"big_int.h"],
 [("incremental winding numbers","BSPNode::PushContentPWNToChildren"),("border polygons peeled per plane","PlanePartitioner::Run/ProcessLeaf"),("split choice","BSPTraverser::SplitStrategy::Split"),("set expressions","UnionIdsFilter/IntersectIdsFilter/SubtractIdsFilter, *Filter in bsp_visitor.h")],
 ["polygons passed to BSPVisitor::Accept"],None,
 [("content_info_by_id_","winding number and polygon counts per solid and cell","BSPNode"),("border_map_","border polygons grouped by split plane address","BSPTraverser")])
p("C02","Cells keep true winding numbers and no surface is lost in any history",
 "After any interleaving of adding solids to a BSP tree and splitting its leaves by arbitrary planes, a cell that no facet of a closed solid passes through reports that solid's true winding number, and a cell reports facets of a solid exactly when it holds some. The pieces held by the leaves cover each input facet exactly once, each inside its own cell.",
 ["histories","schedules","inputs"],
 "Every sequence of add-facet, add-solid and split operations (split planes that miss, cut, touch or contain facets), including adding solids, and new solid ids, after the tree was split.",
 "The tests split a root holding one fixed shape; adding to a split tree, several ids, and deep split histories are not exercised.",
 [I+"bsp_tree.h",I+"bsp_node.h",I+"bsp_polygon.h",I+"bsp_edge_info.h",I+"convex_polygon.h",I+"convex_polygon_split_info.h",I+"aabb_convex_polygon.h",I+"r_transformation.h","src/walnut/r_transformation.cpp"],
 [("M-value crossing rule","BSPNode::GetPWNEffectAtVertex"),("pushing facets","BSPNode::PushContentsToChildren, PushBorderContentsToChildren, PushContentsToLeaves"),("facet splitting","ConvexPolygon::GetSplitInfo, CreateSplitChildren")],
 ["BSPNode::content_info_by_id, contents, border_contents, GetPWNForId"])
p("C03","Connected output is watertight with reciprocal, opposite half-edges",
 "When a boolean operation on closed solids is collected by the connecting visitor, no error is reported and every edge of every emitted facet has exactly one partner: an edge of another facet running over the same segment in the opposite direction, whose own partner is the first edge. Where more than two facets meet in a segment, facets bounding the same piece of the inside are partnered. Facets stay planar and convex, and once the empty ones are filtered they together bound exactly the selected points, for every schedule and heap layout.",
 ["schedules","histories","inputs","configurations"],
 "Every set of closed solids, boolean operation, arrival order, interleaving of tree operations, split-strategy setting and heap layout.",
 "Tests connect a handful of hand-built facets; facet merging depends on the iteration order of containers hashed by address, which a test does not control.",
 [I+"connecting_visitor.h",I+"edge_line_connector.h",I+"connected_polygon.h",I+"convex_polygon.h",I+"convex_polygon_edge.h",I+"deed.h",I+"bsp_traverser.h"],
 [("pairing edges around a line","EdgeLineConnector::ConnectEdgesInLine"),("merging facets","ConnectingVisitor::LeaveInteriorNode, ConvexPolygon::TryMergePolygon"),("pointer upkeep on moves","ConnectedEdge move operations, DeedTarget")],
 ["ConnectingVisitor::polygons, error_log callback"])
p("C04","Damaged facet streams are survived, reported and never mis-linked",
 "If facets of a solid are lost, duplicated, reordered, flipped or mixed with stray facets on their way into the tree, a connected boolean traversal still finishes within a bounded number of steps without touching invalid memory. Every partner link it leaves is reciprocal and joins opposite edges, and if any delivered edge is left without a partner the error callback was called.",
 ["fault_sequences","inputs","schedules"],
 "Every pattern of loss, duplication, reordering and orientation flips over the facet streams of one or more solids.",
 "Tests feed closed meshes or a few handcrafted open ones to the connector alone.",
 [I+"edge_line_connector.h",I+"connecting_visitor.h",I+"bsp_traverser.h",I+"plane_partitioner.h",I+"connected_polygon.h"],
 [("error reporting","EdgeLineConnector::ProcessNeedPartners, ConnectEdgesInLine"),("deed bookkeeping","Deed/DeedTarget")],
 ["error_log callback, ConnectedEdge::partner"])
p("C05","A failed allocation surfaces as bad_alloc, leaks nothing and corrupts nothing",
 "If any memory allocation fails at any point while solids are loaded, split, traversed, connected or exported, the operation throws std::bad_alloc to its caller instead of crashing or terminating. Caller-owned input meshes keep their values, everything can be destroyed with no leak or invalid access, and repeating the operation from scratch once memory is available gives the correct result.",
 ["fault_sequences","crash_points","inputs"],
 "Every allocation index at which one, several or all later allocations fail, in every phase of the pipeline, with one or more failures in the same session.",
 "No test makes an allocation fail.",
 [I+"big_int_words.h",I+"bsp_node.h",I+"bsp_tree.h",I+"bsp_traverser.h",I+"connecting_visitor.h",I+"convex_polygon.h",I+"deed.h",I+"connected_polygon.h"],
 [("heap words of big integers","BigIntWords::AllocateExtra"),("child creation","BSPNode::Split/MakeInterior"),("unwinding deeds","GenericDeed::~GenericDeed")],
 ["exceptions leaving AddContent(s)/Traverse, allocator accounting"])
p("C06","Big integers stay exact through any operation history and failed allocations",
 "For any sequence of constructions, copies, moves, swaps, self-assignments and arithmetic, shift, comparison, division, gcd and aliased in-place operations on a pool of arbitrary-precision integers, every integer equals the mathematically exact value. An operation whose allocation fails throws std::bad_alloc, leaves every integer it was not assigning to at its value, leaves the assigned one destructible and assignable, and leaks nothing.",
 ["histories","fault_sequences","inputs"],
 "Every operation sequence over a pool of integers of 1 to several dozen words, any reuse of storage capacity and aliasing, any failing allocation.",
 "Tests apply single operations to chosen constants on fresh objects; storage reuse across growth, shrink and moved-from states, and failing allocations, are not covered.",
 [I+"big_int.h",I+"big_int_words.h",I+"big_uint.h",I+"big_uint_word.h","src/walnut/big_int.cpp"],
 [("storage growth and reuse","BigIntWords::resize, resize_without_copy, operator="),("carry, trim and sign handling","BigInt::Add/Subtract/Multiply/DivideRemainder")],
 ["BigInt public API"])
p("C07","A deed always points at its object through any history of moves and loans",
 "Through any interleaving of moving, assigning, swapping, destroying and relocating owned objects (also inside growing containers) with taking, moving, swapping, lending and returning deeds, each deed designates the one object it was issued for or nothing once that object is destroyed. No two active deeds designate the same object, and returning a loan restores the lender.",
 ["histories","fault_sequences"],
 "Every legal sequence of target and deed operations on a pool of targets and deeds, including container growth and abandoned (thrown) operations.",
 "Tests perform one or two operations each; sequences that mix relocation with loans are not explored.",
 [I+"deed.h",I+"connected_polygon.h"],
 [("owner back pointer","DeedTarget move operations"),("loan chain","GenericDeed::swap, Return, Lend")],
 ["Deed::get, Deed::Lend, Deed::Return"])
p("C08","Polygons stay convex, planar and area-preserving through any edit history",
 "Through any sequence of cutting convex polygons by planes, splitting edges at points, merging neighbours, rotating, sorting, copying and moving, every polygon stays planar and convex with edge lines matching its vertices, cuts put each part on its side and preserve total area, a merge succeeds only if the union is convex and preserves area, the reported extreme vertices are extreme, and the bounding box contains every vertex and exceeds the tight box by less than one unit of its denominator. Polygons compare equal exactly when planes, vertex cycles and edge data agree. An edit abandoned by a failed allocation leaves its source destructible, leaks nothing and does not affect other polygons.",
 ["histories","fault_sequences","inputs"],
 "Every sequence of edits on a pool of polygons with rational vertices and arbitrary planes, with failing allocations at any point.",
 "Tests apply one cut or merge to fixed small polygons; accumulated state (cached lines, bounding-box indices, homogeneous coordinates) after long histories is not covered.",
 [I+"convex_polygon.h",I+"convex_polygon_edge.h",I+"convex_polygon_split_info.h",I+"aabb_convex_polygon.h",I+"convex_vertex_aabb_tracker.h",I+"mutable_convex_polygon.h",I+"aabb.h",I+"plucker_line.h"],
 [("bisect and linear range search","ConvexPolygon::FindSplitRangesBisect/Linear"),("box index upkeep","ConvexVertexAABBTracker"),("merge convexity test","ConvexPolygon::TryMergePolygon")],
 ["GetSplitInfo, CreateSplitChildren, SplitEdge, TryMergePolygon, aabb"])
p("C09","Streaming decomposition tiles each polygon exactly, also after interruption",
 "Feeding vertex loops one after another through one reused convex-polygon factory emits, for every loop, valid convex planar pieces with vertices (and vertex data) taken from the loop whose signed sum is exactly the loop; for simple planar loops that are convex or monotone along every coordinate axis all pieces have the loop's orientation, so they tile it without overlap. Every build ends. A consumer that abandons an emission by throwing, or an allocation that fails in the middle, does not change what later loops produce.",
 ["histories","fault_sequences","inputs"],
 "Every sequence of loops (convex, monotone, star-shaped, general simple, with collinear and repeated vertices) on one factory, with the consumer aborting at any emission or an allocation failing at any point.",
 "Tests decompose single fixed loops on a fresh object and never abandon an emission.",
 [I+"convex_polygon_factory.h",I+"monotone_decomposer.h",I+"orienting_monotone_decomposer.h",I+"monotone_triangulator.h",I+"monotone_range.h",I+"planar_range.h",I+"concat_range.h"],
 [("per-build state","MonotoneDecomposer::Build (convex_top_, convex_bottom_), MonotoneTriangulator::Build"),("chain extraction","MonotoneRange::Build"),("planar runs","PlanarRange::Build")],
 ["ConvexPolygonFactory::Emit"])
p("C10","Plane repair yields planar facets on shared vertices in any session",
 "For every session that feeds facet vertices to the plane repairer, in any facet order, with vertices given in any homogeneous representation, and with clears, restarts and failed allocations in between, every facet of the finished mesh whose vertices are not all on one line has all of its vertices exactly on its reported plane. Each distinct input vertex maps to one finite output position in every facet that uses it, the facets cover every input loop in its direction, and a vertex moves only if the reported plane of one of its facets misses it; in particular connected parts whose facets were already planar stay as they are.",
 ["histories","fault_sequences","inputs"],
 "Every arrival order of facets and vertices, every duplicate/rescaled representation of a vertex, with sessions restarted via Clear or after a failed allocation.",
 "Tests repair one fixed pyramid or tetrahedron in one order.",
 [I+"mesh_plane_repairer.h","src/walnut/mesh_plane_repairer.cpp",I+"nudging_plane_builder.h","src/walnut/nudging_plane_builder.cpp"],
 [("vertex identity","MeshPlaneRepairerBase::AddVertexInfo"),("constraint counting","VertexInfo::TryAddAdjacent/Finalize"),("range selection","GetNextPlanarRange")],
 ["MeshPlaneRepairerProducer::GetNextPolygon"])
p("C11","Merged export points stay merged: equivalent vertices get one exported point",
 "Through any sequence of creating, copying and redirecting shared values, values that were ever redirected to one another dereference to the same live value and unrelated values stay separate, and each value is destroyed exactly once. Consequently, exporting a connected mesh maps all representations of one vertex to one point regardless of the order edges are visited.",
 ["histories","schedules","inputs"],
 "Every sequence of redirect operations (in any direction, on primary and redirected entries) and every edge visiting order for vertices having several floating-point representations.",
 "Tests redirect two or three values in one order (chains built from the primary end only).",
 [I+"redirectable_value.h",I+"vertex_double_point3_mapper.h","vtk_interface/include/walnut/walnut_to_vtk_mesh.h"],
 [("redirect chains","RedirectableValue::Redirect, primary"),("merging representations","VertexDoublePoint3Mapper::Map")],
 ["RedirectableValue::operator*, VertexDoublePoint3Mapper::map"])
p("C12","Operations running concurrently on separate data do not affect each other",
 "Tasks that run boolean operations, decompositions, plane repairs or big-integer arithmetic concurrently, each on its own objects and possibly reading the same constant input solids, each obtain exactly the result they obtain alone, for every preemptive interleaving. No task writes memory that another task accesses without synchronisation.",
 ["schedules","inputs"],
 "Every preemptive interleaving (at individual memory accesses) of two or more tasks with private mutable state and shared read-only inputs.",
 "All tests are single threaded.",
 [I+"big_int.h",I+"bsp_tree.h",I+"bsp_traverser.h",I+"connecting_visitor.h",I+"convex_polygon.h","src/walnut/big_int.cpp","src/walnut/homo_point3.cpp"],
 [("no mutable global state","whole library"),("logically const reads do not write","ConvexPolygon, HomoPoint3, BigInt const members")],
 ["results of each task; memory accesses"])
p("C13","The VTK filter always shows the boolean result of its current inputs",
 "After any history of adding, removing, replacing and editing inputs (polygon cells or triangle strips, closed or empty), and of changing the operation or quantisation setting, updating the VTK boolean filter yields a closed surface bounding exactly the union, intersection or difference of the current inputs. A failed update (an open input) is reported and does not affect later updates.",
 ["histories","configurations","fault_sequences","inputs"],
 "Every sequence of pipeline edits and updates, with inputs that become empty or damaged and later recover.",
 "The VTK interface has no tests.",
 ["vtk_interface/src/vtkWalnutBooleanFilter.cpp","vtk_interface/include/walnut/vtkWalnutBooleanFilter.h","vtk_interface/include/walnut/vtk_to_walnut_mesh.h","vtk_interface/include/walnut/walnut_to_vtk_mesh.h",I+"boolean_operation_filter.h"],
 [("input conversion","VTKToWalnutMesh"),("operation dispatch","vtkWalnutBooleanFilter::RequestData"),("output conversion","SaveWalnutMeshToVTK")],
 ["vtkWalnutBooleanFilter output polydata"])
p("C14","A traversal can be abandoned at any callback and the tree stays correct",
 "If a visitor abandons a traversal by throwing from any callback (inside test, enter, leave, accept or error report), the exception reaches the caller, nothing leaks, and the tree remains usable: later traversals, splits and additions on the same tree, and reuse of the same traverser or edge connector, give the same correct results as if the abandoned traversal had never started.",
 ["crash_points","histories","fault_sequences"],
 "Every callback index at which a traversal is abandoned, repeated any number of times, mixed with additions and further traversals with other filters.",
 "No test throws from a callback.",
 [I+"bsp_traverser.h",I+"plane_partitioner.h",I+"edge_line_connector.h",I+"bsp_tree.h",I+"connecting_visitor.h"],
 [("traverser scratch state","BSPTraverser::border_map_, event point lists"),("partitioner scratch state","PlanePartitioner::current_content_info_, free lists"),("connector scratch state","EdgeLineConnector::end_events_, need_partners_")],
 ["BSPTree::Traverse, BSPTraverser::Run"])
p("C15","A cell border query returns exactly the boundary of that cell",
 "After any history of splits and additions, querying the border of the cell at any path, clipped to a bounding box, returns facets on the splitting planes of the path (and, when walls are asked for, the box walls) that bound exactly the intersection of the cell with the box; the query is empty if they do not overlap and never changes the tree.",
 ["histories","inputs"],
 "Every split history, path and bounding box, including boxes that miss, touch or contain the cell and planes coincident with box walls.",
 "Tests query trees with at most one or two axis-aligned splits.",
 [I+"bsp_tree.h",I+"aabb.h","src/walnut/aabb.cpp",I+"connecting_visitor.h"],
 [("mapped tree","BSPTree::GetNodeBorder, GetNodeBorderNoBoundWalls"),("box sections","AABB::IntersectPlane, GetWalls")],
 ["BSPTree::GetNodeBorder, GetNodeBorderNoBoundWalls"])
p("C16","Geometric values stay exact through any history",
 "Through any history of constructing, combining, transforming, reducing, copying and moving vectors, points, lines, planes and boxes, with aliased arguments, reused storage and failed allocations: side tests, comparisons, projections, intersections and box sections give the sign or value of the exact rational expression, for coordinates of any size and any homogeneous representation (documented preconditions respected); == means equal geometry; the orderings are strict weak orders whose equivalence is equal geometry; no operation changes an object it was not asked to change.",
 ["inputs","histories","fault_sequences"],"All histories of operations on points, lines, planes, vectors and boxes with arbitrary-precision homogeneous coordinates, with an allocation failing at any point.",
 "Tests use chosen small and a few extreme constants, one operation at a time, and never fail an allocation.",
 [I+"half_space3.h",I+"half_space2.h",I+"r_transformation.h","src/walnut/r_transformation.cpp",I+"homo_point3.h","src/walnut/homo_point3.cpp",I+"homo_point2.h",I+"point2.h",I+"point3.h",I+"plucker_line.h",I+"rational.h",I+"vector2.h",I+"vector3.h",I+"half_space2_sideless_compare.h",I+"aabb.h","src/walnut/aabb.cpp"],
 [("exact integer arithmetic","HalfSpace3::Compare, PluckerLine::Intersect, Vector2::IsRotationLessThan"),("orderings","HalfSpace2SidelessCompare, HalfSpace3Compare, HomoPoint2/3::LexicographicallyLt, RotationCompare"),("boxes","AABB::GetPlaneSide, IntersectPlane, GetWalls")])
p("C17","Conversion from and to doubles is exact or correctly quantised",
 "Through any history of importing, moving, merging and exporting points, with failed allocations: converting finite doubles to exact points loses nothing unless a quantisation exponent is given, in which case each coordinate is rounded to the nearest multiple of 2^exponent; exporting an imported point returns the same doubles; exporting any other point gives each coordinate with an error below one unit in the last place (coordinates within the range of long double); equal double points have equal hashes.",
 ["inputs","histories","fault_sequences"],"All finite doubles, all exponents, all representations of a point, with an allocation failing at any point.","Tests convert a few constants.",
 [I+"homo_point3.h","src/walnut/homo_point3.cpp",I+"double.h",I+"double_point3.h","src/walnut/big_int.cpp"],
 [("mantissa and exponent extraction","HomoPoint3::FromDoublesExact/FromDoubles, Decompose"),("export","HomoPoint3::GetDoublePoint3, BigInt::operator double")])
p("C18","Centroid, extreme points and extrusion are exact through any history",
 "Through any history of building, extruding, joining, reordering and copying meshes, with failed allocations: the centroid of a closed mesh is the exact centroid of the enclosed (signed) volume, its farthest and topmost points are vertices that no vertex exceeds, and the extrusion of a simple planar loop is the closed surface of the prism with outward or inward orientation given by the loop; a failed call reports the failure, changes nothing and can be repeated.",
 ["inputs","histories","fault_sequences"],"All closed meshes in every facet order and representation, all loops and directions, with an allocation failing at any point.","Tests use a few fixed shapes.",
 [I+"mesh.h",I+"extrude.h","src/walnut/extrude.cpp"],
 [("common denominators","GetCentroid"),("caps and walls","Extrude"),("extreme points","GetTopPoint, GetFarthest")])
open("/verif/properties.jsonl","w").write("\n".join(json.dumps(x) for x in P)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
