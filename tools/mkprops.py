#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

CDT, SW, TR, SH, PT, AF, AM, UT, LD, LB = ("src/cdt.rs", "src/sweeper.rs", "src/triangles.rs", "src/shape.rs",
    "src/points.rs", "src/advancing_front/vec_backed.rs", "src/advancing_front/mod.rs", "src/utils.rs", "src/loader.rs", "src/lib.rs")

prop("C01", "Safe API cannot cause out-of-bounds access or aliased exclusive references",
 "No sequence of safe calls on the public API, including calls made from observer callbacks on the state they are shown, makes the library read or write outside its own buffers or hand out two exclusive references to one element. An identifier unknown to a store, such as one seen in another run, gives None or a panic, never undefined behaviour. The identifiers a run uses itself always name an element it has stored.",
 ["inputs", "programs"], "all client programs without unsafe code, all inputs, both float configurations, with debug assertions off",
 "The tests never pass a foreign id, run with debug assertions on, and undefined behaviour need not fail a test.",
 [TR, PT, AF, CDT, SW],
 [("bounds-checked id lookups", "src/triangles.rs TriangleStore::get/get_unchecked/get_mut_unchecked, src/points.rs Points::get_point"), ("asserted distinct, in-range pair", "src/triangles.rs get_mut_two/get_mut_six"),
  ("ids are minted only by the stores, and stores only grow", "src/points.rs PointsBuilder, src/triangles.rs insert"), ("index checked before unchecked access", "src/advancing_front/vec_backed.rs locate_*/next_node/prev_node, src/cdt.rs Triangles::next")])

prop("C02", "Attaching an observer never changes the triangulation",
 "An observer is shown the running triangulation through shared, read-only access and hands nothing back, so no observer can alter any later step or the result. Triangulating without an observer is the same computation with an observer that ignores every event.",
 ["programs", "inputs"], "all observer implementations, all inputs",
 "Tests use one counting observer; the claim ranges over every implementation a client can write.",
 [CDT, SW], [("callbacks take &Sweeper and return ()", "src/cdt.rs trait Observer"), ("no interior mutability behind Sweeper", "src/sweeper.rs Sweeper, src/triangles.rs, src/points.rs, src/advancing_front"),
  ("triangulate delegates with the unit observer", "src/cdt.rs CDT::triangulate")], observe=["Observer callbacks", "CDT::triangulate / triangulate_with_observer"])

prop("C03", "Observer events follow one fixed protocol",
 "For every swept point an observer sees its enter event, then the work for it, then its exit event, then one edge event for each segment ending there after that segment was handled, before the next point is entered. Every legalization is bracketed by a start and an end event naming the same triangle, every rotation it performs is announced before it happens with the two triangles it rotates, and the run ends with exactly one sweep-done event followed by exactly one finalized event after the result is extracted.",
 ["inputs", "histories"], "all event histories of all runs that return",
 "Tests only count some events on three fixed data sets; order and pairing are never asserted.",
 [CDT, SW], [("event calls in the sweep loop", "src/sweeper.rs sweep_points"), ("event calls around legalization", "src/sweeper.rs legalize"), ("final events", "src/cdt.rs triangulate_with_observer")],
 observe=["Observer callbacks"])

prop("C04", "Triangulation is deterministic and has no ambient effects",
 "The result of a triangulation is a function of the input points, segments and float configuration only: it uses no randomness, clock, environment, global mutable state, threads, addresses or hash order, and performs no input or output. Only the file loader touches the outside world, and it only reads the file it was given.",
 ["inputs", "schedules", "configurations"], "all inputs, all runs, all threads",
 "A test compares one run with one count; hidden state or ordering dependence shows only across runs and processes.",
 [SW, CDT, PT, SH, TR, AF, UT, LD], [("absence of effectful callees in the call graph", "whole crate"), ("read-only open", "src/loader.rs PlainFileLoader::load")])

prop("C05", "Associated data stays aligned with its points",
 "For every way of supplying points (outline, single or batched steiner points, one or several holes, in any order of calls), the builder appends the supplied points and their data in the supplied order and in the same number, so the data at an index is the data supplied with the point at that index.",
 ["inputs", "histories"], "all sequences of builder calls with sources that give as many data as points",
 "One test uses one call sequence with six points.",
 [CDT, PT, LB], [("lockstep append", "src/cdt.rs Builder::{new,add_steiner_point,add_steiner_points,add_hole,add_holes}"), ("data passed through", "src/cdt.rs Builder::build, CDT::triangulate_with_observer, Triangles::data"), ("data sources", "src/lib.rs PointDataSource impls")],
 observe=["Triangles::points", "Triangles::data"])

prop("C06", "The output point list is the input point list",
 "The points reported with a triangulation are exactly the supplied points, in supply order and with unmodified coordinates; the synthetic points the sweep adds are never part of that list, come after all supplied points, and carry no segment. The position of a point never changes, so a vertex index in the output always denotes the supplied point.",
 ["inputs"], "all inputs", "Tests compare one length on one data set.",
 [PT, CDT], [("append-only store", "src/points.rs PointsBuilder"), ("synthetic points appended last and cut off again", "src/points.rs Points::new, points_without_fake, iter_without_fake"), ("sorting only a copy of the ids", "src/points.rs Points::new")],
 observe=["Triangles::points", "Triangles::triangle_list_indices", "Observer: context.points"])

prop("C07", "Index list and triangle iterator describe the same triangles",
 "The index list holds exactly three indices per result triangle and the iterator yields exactly one triangle per result triangle, both in the same order and with the corners in the same order; the k-th iterated triangle is made of the points the k-th index triple denotes. The iterator ends after the last triangle and stays ended.",
 ["inputs", "histories"], "all results, all interleavings of iterator and accessor calls", "Tests check lengths on one data set only.",
 [CDT], [("index list", "src/cdt.rs Triangles::triangle_list_indices"), ("iterator", "src/cdt.rs impl Iterator for Triangles")], observe=["Triangles::triangle_list_indices", "Triangles as Iterator"])

prop("C08", "Every outline and hole segment becomes a constraint exactly once",
 "For an outline or hole with corners in the given order, each consecutive pair and the closing pair (last, first) is recorded as a constraint exactly once, attached to the endpoint the sweep reaches later and naming the other endpoint; steiner points get no constraint. A repeated consecutive point is rejected rather than silently dropped.",
 ["inputs"], "all outlines and holes of any length", "Tests use three fixed outlines and one square hole and never read the recorded segments back.",
 [CDT, PT, SH], [("pairing loop with closing edge", "src/cdt.rs parse_polyline"), ("endpoint order", "src/shape.rs Edge::new"), ("attachment", "src/points.rs PointEdges::push")], observe=["Observer::edge_event", "context.points.iter"])

prop("C09", "One total order: lower y first, then lower x",
 "Points are swept by increasing y and, at equal y, by increasing x; the endpoint to which a segment is attached is the endpoint that comes later in this same order; front nodes are ordered by x, then y. For distinct points with finite coordinates each comparison is total, antisymmetric and transitive.",
 ["inputs"], "all pairs of finite points, including equal x or equal y", "Tests rarely contain ties; every tie pattern of both coordinates must agree between independent comparisons.",
 [PT, SH, AF], [("sweep sort comparator", "src/points.rs Points::new"), ("segment direction", "src/shape.rs Edge::new"), ("front key order", "src/advancing_front/vec_backed.rs PointKey")])

prop("C10", "The sweep visits every point once and every segment after its later endpoint",
 "The sweep starts from the first point in sweep order joined with the two synthetic points, then processes every remaining supplied point exactly once in sweep order; for each point it then enforces every segment attached to it, and only those, before moving to the next point. After the last point the result is extracted once.",
 ["inputs"], "all inputs", "Skipping a late point or a second attached segment needs particular inputs to show.",
 [SW, CDT, PT], [("sweep loop", "src/sweeper.rs sweep_points"), ("start triangle", "src/cdt.rs triangulate_with_observer"), ("order iterator", "src/points.rs iter_point_by_y, get_id_by_y")])

prop("C11", "Rotating an edge turns a quad into the same quad with the other diagonal",
 "Rotating the shared edge of two neighboring triangles gives two triangles that cover the same quad with the other diagonal, keep the orientation of their corners, keep each outer edge's neighbor in both directions and its constraint mark, and are each other's neighbor across the new diagonal. A stale 'already legal' mark never survives on an edge whose opposite corner changed and which has a neighbor, and the caller is told when an outer edge has no neighbor.",
 ["inputs"], "all nine relative corner placements of the two triangles, all neighbor placements, presence patterns and constraint marks", "Tests cover three corner rotations of one triangle and never the neighbor or mark bookkeeping.",
 [SW, SH, TR], [("rotation", "src/sweeper.rs rotate_triangle_pair"), ("corner and mark accessors", "src/shape.rs InnerTriangle"), ("relinking", "src/triangles.rs mark_neighbor_for_two_mut")], observe=["Observer: context.triangles"])

prop("C12", "Linking two triangles is symmetric and keeps constraint marks",
 "When two triangles sharing an edge are linked, each becomes the other's neighbor across exactly that edge, both sides carry the constraint mark if either did, the 'already legal' mark of that edge is cleared on both sides, and nothing else about either triangle changes. This holds for every placement of the shared edge in the two triangles.",
 ["inputs"], "all placements of the shared edge, all mark combinations", "A few placements are unit-tested for the edge lookup only.",
 [TR, SH], [("linking", "src/triangles.rs mark_neighbor, mark_neighbor_for_two_mut"), ("shared-edge lookup", "src/shape.rs common_edge_index, edge_index")])

prop("C13", "Constraint marks are set on both sides and never lost",
 "For segments that do not cross each other: whenever a segment is found to be, or is made, an edge of the mesh, the edge is marked as constrained in every triangle that has it; a constraint mark once set is never cleared by any later step. When the enforcement of a segment meets a corner lying on it, the part up to that corner is marked and the enforcement continues from there to the segment's end. A flip on the way to a segment whose new edge is not the segment itself sets no mark.",
 ["inputs", "histories"], "all segments, all later operations", "One-sided or lost marks matter only when a later step looks from the other side.",
 [SW, TR, SH], [("marking both sides", "src/sweeper.rs try_mark_edge_for_triangle, edge_event_process, flip_edge_event"), ("merge on relink", "src/triangles.rs mark_neighbor_for_two_mut"), ("mark bits", "src/shape.rs EdgeAttr")])

prop("C14", "The result is one region closed under unconstrained edges, each triangle once",
 "The extracted result consists of a start triangle and everything reachable from it across edges that are not constrained: from each result triangle every unconstrained edge with a neighbor is crossed and no constrained edge is ever crossed. Each triangle is reported at most once, and nothing else is ever added to or removed from the result. The start triangle is searched about the points of the final front in order, leaving out its synthetic ends: it is the first one, turning clockwise about such a point and beginning with the triangle below the front, whose edge on the side turned from is constrained. A point without one, such as a steiner point outside the outline, is passed over; the result is empty only if no point of the front has one.",
 ["inputs"], "all meshes", "Leaks through one of the three edges, or duplicates, need specific meshes.",
 [SW], [("flood fill", "src/sweeper.rs clean_mesh"), ("start search", "src/sweeper.rs finalize_polygon, finalize_from_node")], observe=["Triangles", "Observer: context.result"])

prop("C15", "Legalization rotates exactly the unconstrained edges the in-circle test rejects",
 "Legalization rotates an edge only if it is not constrained, has a triangle on the other side and the in-circle test of the triangle against the corner opposite to that edge is positive, and it does rotate such an edge unless it is marked already legal. After a rotation both triangles are examined again, and only the edge just created is marked already legal, on both sides.",
 ["inputs"], "all triangles, all three edges, all neighbor placements", "The observable effect of examining too little is a slightly non-Delaunay mesh that no test looks at.",
 [SW], [("legalization loop", "src/sweeper.rs legalize")], observe=["Observer::triangle_rotated"])

prop("C16", "Orientation and in-circle decisions are exact on the raw input coordinates",
 "Every orientation and in-circle decision is the exact sign of the predicate on the unmodified coordinates of the points in question: positive orientation is counter-clockwise, negative clockwise, zero collinear, and in-circle is strictly inside; no rounding, tolerance or conversion is applied before or after. No other part of the library makes up an orientation.",
 ["inputs", "configurations"], "all coordinates, both float configurations", "Near-degenerate coordinates where rounding matters are not in the tests.",
 [UT, SW], [("predicates", "src/utils.rs orient_2d, in_circle")])

prop("C17", "Front lookups agree with a sorted front at all times",
 "The front is kept sorted by position with one node per position; a lookup reports a node only if that node's position is the one asked for, and otherwise the place where it would be; the remembered last access never outlives a change that could move it. Neighbors of a node are the nodes directly before and after it, and no node exists before the first or after the last.",
 ["inputs", "histories"], "all interleavings of insertions, removals and lookups", "A stale remembered access shows only after a particular insert/remove/lookup sequence.",
 [AF, AM], [("search with cache", "src/advancing_front/vec_backed.rs search_by_key_with_cache"), ("cache updates", "insert, update_and_delete_by_index, get_node_with_cache"), ("neighbors", "next_node, prev_node, locate_next_node, locate_prev_node")])

prop("C18", "New triangles are wired to the front they are attached to",
 "Inserting a point creates one triangle from the point and the front edge below it, linked to the triangle under that edge, and puts the point on the front with that triangle; a front node with the same x below the point is filled at once. Filling a front corner creates one triangle from the corner and its two front neighbors, linked to the triangles under both edges, hands the new front edge to it and removes exactly that corner from the front. Both list their corners in the same rotational sense and are legalized afterwards.",
 ["inputs"], "all insertions and fills", "Wrong wiring usually still yields some triangulation on the tested data.",
 [SW, AF], [("point event", "src/sweeper.rs point_event"), ("fill", "src/sweeper.rs fill_one"), ("initial front", "src/advancing_front/vec_backed.rs AdvancingFront::new")])

prop("C19", "Enforcing a segment only fills corners found concave, the same on both sides",
 "While a segment is enforced, a front corner is filled only after the orientation test of exactly that corner with its two front neighbors found it concave. Segments leaning left and right are handled as mirror images: the same steps with left and right, clockwise and counter-clockwise exchanged.",
 ["inputs"], "all segments and front shapes", "Filling a convex corner corrupts the mesh only for particular spiky outlines, which the data sets do not contain.",
 [SW], [("right side", "src/sweeper.rs fill_right_*"), ("left side", "src/sweeper.rs fill_left_*")])

prop("C20", "Working storage is linear: one triangle per swept point and per filled corner",
 "Each swept point creates exactly one triangle and one front node, each fill creates exactly one triangle and removes exactly one front node, and no other step creates triangles or front nodes; so the mesh never holds more than about two triangles per input point. Triangles are never removed or moved, so a triangle identifier stays valid for the whole run.",
 ["inputs"], "all inputs", "Tests assert final counts for two data sets only.",
 [SW, TR, AF, CDT], [("creation sites", "src/sweeper.rs point_event, fill_one; src/cdt.rs triangulate_with_observer"), ("append-only triangle store", "src/triangles.rs TriangleStore")], observe=["Observer: context.triangles.len()"])

prop("C21", "Loading a bad file is an error value, never a panic",
 "Loading reports a missing or unreadable file, text that is not UTF-8, an incomplete coordinate pair and a coordinate that is not a number as an error value; reading and parsing neither panic nor give a builder with points silently dropped or invented. Unparsable lines are never skipped. (A word after the second number of a line is not looked at, and points that the builder itself refuses, such as the same point twice in a row, are refused by it as ever.)",
 ["inputs", "fault_sequences"], "all file contents and all I/O failures", "No test loads a malformed file.",
 [LD], [("error propagation", "src/loader.rs PlainFileLoader::load, parse_point")], observe=["Loader::load"])

prop("C22", "Loaded points go to the section they are listed under",
 "Coordinates before any section header form the outline, coordinates after a HOLE header form the hole opened by the latest such header, and coordinates after a STEINER header are steiner points; each parsed line adds exactly one point, first number x and second number y, in file order. The builder receives the outline first, then the holes in file order, then the steiner points.",
 ["inputs"], "all section orders and repetitions", "No test loads a file with sections through the loader.",
 [LD], [("section state", "src/loader.rs PlainFileLoader::load"), ("coordinates", "src/loader.rs parse_point")], observe=["Loader::load"])

prop("C23", "The float configuration changes only the coordinate type",
 "With and without the f32 feature the library builds and offers the same API, and every function does the same steps in the same order; the only difference is the coordinate type. No coordinate is converted between float types or to an integer except where the exact predicates widen their arguments.",
 ["configurations", "inputs"], "both configurations, all functions", "The recorded test suite never builds the f32 configuration.",
 [LB, "Cargo.toml", PT, SW, UT], [("type alias", "src/lib.rs Float")])

prop("C24", "Builders, problems and results can be cloned and moved between threads",
 "Builder, problem and result values are Send and Sync whenever the associated data is, builder and problem are Clone whenever the data is, and an identifier or point is freely copyable; independent triangulations share no mutable state, so they can run concurrently.",
 ["programs", "schedules"], "all data types, all concurrent uses", "No test moves a value across threads; auto traits can be lost by changing a private field.",
 [CDT, PT, TR, SH], [("plain owned fields only", "src/cdt.rs Builder, CDT, Triangles"), ("no statics", "whole crate")])

prop("C25", "Stack use does not grow with the input",
 "No step of a triangulation recurses to a depth that depends on the number of input points, so a large but valid input cannot exhaust the stack. In particular legalization and result extraction use explicit work lists.",
 ["inputs"], "all input sizes", "The largest tested outline has 1036 points.",
 [SW], [("explicit work lists", "src/sweeper.rs legalize, clean_mesh")])

prop("C26", "Angle, scan-area and basin tests are their documented geometric functions",
 "The corner-angle test classifies a corner by the signs of cross and dot product of its two legs: negative turn, strictly between 0 and 90 degrees, or more than 90 degrees. The scan-area test accepts a point only if it lies strictly between the two legs, by more than the float tolerance on both. The basin test accepts only corners steeper than the 135 degree line. All depend on coordinate differences only and cover every sign combination.",
 ["inputs"], "all coordinates, every sign combination including zeros", "Six sample angles are tested, no basin and no scan area.",
 [UT, SW], [("angles", "src/utils.rs Angle"), ("scan area", "src/utils.rs in_scan_area"), ("basin", "src/sweeper.rs basin_angle_satisfy, Basin")])

prop("C27", "After a rotation at the mesh border the front learns the new triangles",
 "Whenever a rotation touches an outer edge without a neighbor, both rotated triangles are announced to the front before the operation that rotated them ends; announcing a triangle updates, for each of its edges without neighbor, the front node at the start of that edge. The triangle a front node names therefore always has that front edge.",
 ["inputs", "histories"], "all rotations", "A stale front entry is noticed only if a later point lands on that very edge.",
 [SW, AF], [("remap queue", "src/sweeper.rs legalize"), ("direct remap", "src/sweeper.rs flip_edge_event"), ("remap", "src/sweeper.rs map_triangle_to_nodes")])

prop("C35", "Holes and basins beside a new point are closed by one fixed rule",
 "After a point is inserted the front is closed corner by corner outward from its node, first to the right, then to the left. A corner is closed only if it does not turn away, and its angle is at most 90 degrees or becomes an acute one when either leg is taken to the front node beyond; each walk ends at the first corner that does not qualify, or at the end of the front. If the basin test then holds at the new node, the basin to the right is filled: its left rim is the next node (the one after if the corner between turns left), its bottom the end of the descent from there, its right rim the end of the ascent from the bottom. Filling starts at the bottom, fills nothing the completion test excludes, goes on with the lower of the two neighbors, and once one rim is reached with the neighbor on the other side, but not past a corner that turns down.",
 ["inputs"], "all front shapes, every sign of the corner tests, every basin", "Closing a corner that is no hole lays triangles over the area above the front; the sampled outlines reach few such corners and hardly any basin rim.",
 [SW, UT], [("holes", "src/sweeper.rs fill_advancing_front, should_fill"), ("basin", "src/sweeper.rs fill_basin, fill_basin_req")])

prop("C36", "A segment is enforced by turning to it and flipping what it crosses",
 "While a segment is enforced from its later end, the search turns about that end from triangle to neighboring triangle toward the segment until it is in the triangle the segment enters. The edge in the way is flipped exactly if its quad passes the scan-area test; after a flip enforcement continues, about the same end, in the one of the two triangles that the rest of the segment crosses. Where the test fails, a search moves on from triangle to triangle across the edges the segment crosses until it finds a corner that passes the test against the triangle to be flipped, flips toward that corner, and then enforcement resumes where it was. Every triangle flipped on the way is legalized once the segment is done.",
 ["inputs"], "all meshes, all segments, every sign of the orientation and scan-area tests", "Most segments of the sampled inputs are already edges or cross few triangles; the search for another flip is hardly reached at all.",
 [SW, UT], [("turning", "src/sweeper.rs edge_event_process"), ("flipping", "src/sweeper.rs flip_edge_event, next_flip_triangle"), ("search", "src/sweeper.rs flip_scan_edge_event, next_flip_point"), ("legalization afterwards", "src/sweeper.rs edge_event")])

# --- properties this family cannot decide (listed under not_applicable) -------------
prop("C28", "The result is constrained Delaunay",
 "No point of the input that is visible from a result triangle lies inside that triangle's circumcircle.",
 ["inputs"], "all valid inputs", "Only counts are tested.", [SW], [("legalization", "src/sweeper.rs legalize")])
prop("C29", "The result covers exactly the polygon minus its holes",
 "For a simple outline with disjoint holes the result triangles do not overlap and their union is the outline's interior minus the holes.",
 ["inputs"], "all valid inputs", "Only counts are tested.", [SW], [("sweep and flood fill", "src/sweeper.rs")])
prop("C30", "Every segment is a union of result edges",
 "Every outline and hole segment is a union of edges of the triangulation.",
 ["inputs"], "all valid inputs", "Only counts are tested.", [SW], [("edge event", "src/sweeper.rs edge_event")])
prop("C31", "Triangulation always terminates",
 "Triangulating any finite input returns or panics after finitely many steps.",
 ["inputs"], "all inputs", "Tests sample a few inputs.", [SW], [("loops and recursion of the sweep", "src/sweeper.rs")])
prop("C32", "Valid input never panics",
 "A simple outline with disjoint holes and distinct points, including points lying on segments, is triangulated without a panic.",
 ["inputs"], "all valid inputs", "Tests sample a few inputs.", [SW, AF], [("unwraps justified by the front invariants", "src/sweeper.rs")])
prop("C33", "Steiner points outside the outline do not affect the result",
 "Steiner points outside the outline have no effect on which region is triangulated.",
 ["inputs"], "all inputs with outside points", "No test has an outside point.", [SW, CDT], [("start search of the flood fill", "src/sweeper.rs finalize_polygon")])

prop("C34", "The six triangles around a rotated pair are pairwise different",
 "The two triangles of a rotation and their up to four outer neighbors are pairwise different triangles whenever a pair is rotated.",
 ["inputs"], "all inputs", "Only counts are tested; two equal neighbors would be handed out as two exclusive references.", [SW, TR], [("six references at once", "src/triangles.rs get_mut_six"), ("rotation", "src/sweeper.rs rotate_triangle_pair")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
