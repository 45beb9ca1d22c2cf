#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
S = "src/cq_cam/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(qtext.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech],
                          hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or ["Job.to_gcode() text, interpreted as RS274"]
    P.append(d)

prop("C01", "Rapid moves never travel through stock",
 """In every generated profile, pocket or drilling program the tool moves sideways at rapid speed only while it is
 at or above the clearance the job asks for (the rapid height; for drilling the operation safe height), and each
 operation begins by lifting straight up to it. A rapid descent is always purely vertical and stops at or above the
 operation safe height (for drilling at or above the job surface). No rapid move ever ends below the job surface.""",
 ["inputs", "configurations", "histories"],
 """all selected shapes, depths, offsets, stepdowns, stepovers, tabs, job heights and planes (operation safe height not
 above rapid height), and every sequence of profile/wire profile/pocket/drill operations and tool changes on one job""",
 """The tests compare a handful of complete programs for a 5x5 box with default heights as text; they reach neither
 several loops or passes with non-default heights nor transitions between operations of different kinds.""",
 ["routers.py", "operations/drill.py", "command.py", "fluent.py"],
 [("retract, traverse, plunge transition between toolpaths", "routers.py: rapid_to"),
  ("choice between direct cut and retract", "routers.py: route_wires, route_polyface_outers"),
  ("lift, traverse, descend per hole", "operations/drill.py: Drill.__post_init__")],
 [("tool position", "where the previous move left the tool", "routers.py: previous_pos")])

prop("C02", "Pocketing never cuts outside the selected areas or into islands",
 """While cutting a pocket the tool stays inside the selected areas, shrunk or grown by the requested offsets, and never
 goes below the floor selected at that place. It never enters an island (a hole of a selected face not covered by another
 selected area) or an avoid area whose top lies at or above the cutting depth, each kept away from by its requested offset; where the requested
 clearances overlap, all of them hold at once.""",
 ["inputs", "configurations"],
 """all sets of flat faces (convex, concave, round, with islands, overlapping, adjacent, nested, at several depths),
 avoid areas at several heights, tool diameters, outer/inner/avoid offsets, stepovers, stepdowns and job planes""",
 """The tests check three fixed pockets by text and a few helper functions; whether the tool leaves the area depends on
 the shapes, the clearances' overlap and the links between contours, which are unbounded in number.""",
 ["operations/pocket.py", "utils/geometry_op.py", "routers.py", "utils/interpolation.py"],
 [("offset of outer boundary and islands", "utils/geometry_op.py: offset_polyface, calculate_offset"),
  ("union of areas, subtraction of islands and avoid areas per depth", "operations/pocket.py: build_pocket_ops"),
  ("contour filling clipped by islands", "operations/pocket.py: fill_pocket_contour_shrink"),
  ("direct link only when the next contour is close", "routers.py: route_polyface_outers")])

prop("C03", "Pocketing clears everything the tool can reach",
 """At the end of a pocket operation the tool has passed along the whole boundary of the permitted region of every
 selected area at its full depth, and no permitted tool position in that area is farther than one stepover from the
 path cut at that depth. The only exception is a margin of at most one stepover around islands (also gaps enclosed between areas) and avoid areas.""",
 ["inputs", "configurations"],
 """all pockets as in C02 with a stepover of at most the tool radius and permitted regions wider than the
 output precision""",
 """Tests pin the text of three tiny pockets; a contour, branch, area or depth that is dropped for some other shape
 (several areas, branching contours, several depths, stepdown) is not seen.""",
 ["operations/pocket.py", "utils/tree.py", "utils/geometry_op.py"],
 [("repeated inward offsetting until nothing is left", "operations/pocket.py: fill_pocket_contour_shrink"),
  ("sequences cover every contour", "utils/tree.py: Tree.sequences"),
  ("every depth gets its own area", "operations/pocket.py: build_pocket_ops")])

prop("C04", "Profiles follow every selected outline at the requested offset",
 """A profile operation cuts, for every selected outline with an active offset, a closed path lying exactly the requested
 multiple of the tool radius to the outer or inner side of that outline, all the way around, at the outline's height,
 and cuts nothing else. Outlines of holes are cut before outer outlines, and outlines of one kind in the order they
 were selected.""",
 ["inputs", "configurations"],
 """all faces and wires made of lines and circular arcs (and circles, at any location), offsets of either sign, zero or
 disabled, through which the offset outline is not degenerate, all tool diameters, stepdowns, tabs and job planes""",
 """The tests compare text for one 5x5 square; circles, located or rotated wires, several holes, arcs, odd offsets and
 multiple outlines take other code paths that no test observes.""",
 ["operations/profile.py", "utils/geometry_op.py", "routers.py", "fluent.py", "utils/utils.py",
  "utils/circle_bug_workaround.py"],
 [("offset curve of a wire", "utils/geometry_op.py: offset_wire"),
  ("ordered, oriented traversal of the wire's edges", "utils/utils.py: wire_to_ordered_edges, edge_start_point, edge_end_point"),
  ("conversion of edges to moves", "routers.py: route_edge, route_wires"),
  ("selection of outer and inner wires", "utils/utils.py: extract_wires; fluent.py: Job.profile")])

prop("C05", "Depth is taken in steps no larger than the stepdown, ending on depth",
 """With a stepdown set, no pass of a profile or pocket lowers the material at any place by more than the stepdown, and the
 last pass at each place is exactly at the selected depth. Without a stepdown there is a
 single pass at the selected depth.""",
 ["inputs", "configurations"],
 """all depths, stepdowns (dividing the depth evenly or not, larger than the depth, many passes), pockets with
 several depths, profiles with and without tabs, and job planes anywhere in the world""",
 """One profile test has depth 2, stepdown 1; a missing, repeated, misordered or too deep layer needs other ratios, other
 depths, several pockets or another job origin.""",
 ["operations/profile.py", "operations/pocket.py"],
 [("layer generation", "operations/profile.py: profile"),
  ("step sequences and starting depth", "operations/pocket.py: apply_stepdown, determine_stepdown_start_depth")],
 [("material height", "lowest height cut so far at a place", "operations/pocket.py: shallower_pocket_ops")])

prop("C06", "Holding tabs are left where, as many, as wide and as high as asked",
 """When a profile is cut with tabs, every pass that would go below the tab top leaves exactly the requested tabs: over
 each tab span the tool is at the tab height above the profile's depth, and elsewhere it is at the pass depth. Tabs per
 outline are spread evenly along the cut path (starting at its start), tabs per edge are spread evenly along each edge
 that is long enough and of the requested kind; passes above the tab top are not interrupted, and overlapping spans
 merge.""",
 ["inputs", "configurations"],
 """all outlines of lines and arcs including full circles, tab counts, spacings, widths and heights, edge-kind filters,
 offsets, stepdowns and job planes""",
 """Two tests pin the text of one square with two and eight tabs; tabs wrapping the start, on circles and arcs, crossing
 edges, reversed edges, moved shapes or combined with stepdown are not reached.""",
 ["operations/tabs.py", "operations/profile.py"],
 [("tab ranges along the wire", "operations/tabs.py: WireTabs"),
  ("tab ranges along an edge", "operations/tabs.py: EdgeTabs"),
  ("splitting and lifting of edges", "operations/profile.py: apply_tabs")])

prop("C07", "Every hole is drilled once, at its position, to depth, nearest first",
 """A drilling operation visits each selected hole exactly once: it positions over the hole's centre at the safe height,
 feeds straight down to exactly the requested depth below the job surface whatever the sign it is given with, and leaves
 upward before moving on. The first hole is the first one selected and each next hole is one of the nearest not yet
 drilled.""",
 ["inputs", "configurations"],
 """all selections of points, wires, faces and faces with holes in any order, all depths, and job planes anywhere,
 in any orientation""",
 """The single drilling test has holes on a plane at the world origin and compares one text; it cannot see wrong frames,
 lost or repeated holes, or ordering for other layouts.""",
 ["operations/drill.py", "operations/strategy.py", "operations/base_operation.py"],
 [("centres in job coordinates", "operations/drill.py: Drill.__post_init__"),
  ("nearest-neighbour order", "operations/strategy.py: Strategy._pick_nearest")],
 [("remaining holes", "holes not yet drilled", "operations/drill.py: drill_points")])

prop("C08", "Each cut runs with the tool, speed, coolant and feed of its operation",
 """When a program is executed, every cutting move happens with the tool number, spindle speed, coolant and feed that were
 in effect for the operation when it was added, straight plunges into material using the plunge feed, with the
 spindle running. Changing the tool stops the spindle (and coolant), sends the tool home and pauses before the change;
 an unchanged tool or speed produces no needless change, and settings not given for a tool keep their value.""",
 ["histories", "configurations"],
 """all sequences of operations with and without tool arguments (any subset of diameter, number, feed, speed given,
 repeated or returning to an earlier tool), separate tool updates, and initial job settings""",
 """The tests pin text for four short histories; what is in effect depends on the whole history of tool updates and
 operations.""",
 ["fluent.py", "command.py", "tool.py"],
 [("decision between tool change, speed change and nothing", "fluent.py: Job.update_tool"),
  ("program header and end", "fluent.py: Job.to_gcode"),
  ("tool change block", "command.py: ToolChange, StartSequence, StopSequence")],
 [("modal machine state", "tool, speed, coolant, spindle, feed as the controller sees them", "fluent.py: Job.tool_number, Job.speed, Job.feed, Job.coolant")])

prop("C09", "A job is never changed by building on it",
 """Adding an operation or changing the tool returns a new job and leaves the job it was called on exactly as it was: its
 operations, settings and program text stay the same for ever, whatever is later derived from it, also when several jobs
 are derived from the same one or a request fails. The new job contains the old job's operations followed only by what
 the request added.""",
 ["histories"],
 """all trees of derived jobs built by profile, wire profile, pocket, drill and tool updates (with any combination of
 changed fields), including branches from any earlier job and requests that are refused""",
 """Tests always chain calls linearly and look at the last job only; sharing between derived jobs shows only when an
 earlier job is used again after particular updates.""",
 ["fluent.py"],
 [("copy on add", "fluent.py: Job._add_operation"), ("tool update", "fluent.py: Job.update_tool")],
 [("operations", "list of operations of a job", "fluent.py: Job.operations"),
  ("settings", "tool, feed, speed of a job", "fluent.py: Job attributes")],
 ["Job attributes, Job.operations and Job.to_gcode() of every handle after every request"])

prop("C10", "Programs are well-formed, complete and establish the configured modes",
 """Every program is a sequence of well-formed lines that first establishes absolute distances, the XY plane, feed per
 minute, and the job's units, work offset and path mode, cancels compensation and canned cycles, then starts the
 spindle, contains each operation once and in order under its own label, and ends by stopping spindle and coolant and
 ending the program. A saved program file contains exactly that program.""",
 ["inputs", "configurations", "histories"],
 """all job settings (units, work offsets, path modes, coolant, speeds, names with any characters) and operation
 sequences, including jobs without operations""",
 """The tests compare programs for one configuration; other units, offsets, names, coolants and saving are never
 exercised.""",
 ["fluent.py", "command.py", "address.py", "groups.py"],
 [("program assembly", "fluent.py: Job.to_gcode, Operation.to_gcode, Job.save_gcode"),
  ("mode block", "command.py: SafetyBlock"), ("words", "address.py, groups.py")])

prop("C11", "The program text reproduces the planned motion",
 """Interpreting the program text move by move gives exactly the planned sequence of moves: every coordinate within half a
 unit of the last printed decimal, every move starting where the previous one ended, straight moves as straight moves and
 arcs on the planned side, direction and centre. Arc words are consistent (start and end equally far from the centre
 within rounding), and an arc shorter than a full turn never becomes a full turn, nor the reverse.""",
 ["inputs", "configurations"],
 """all planned motion of all operations over all shapes and placements, including tiny and huge coordinates, negative
 zero, arcs of any size and direction""",
 """Text comparisons fix a few numbers with few decimals; rounding corner cases, tiny arcs, arc directions on reversed or
 mirrored edges and continuity across operations depend on the geometry.""",
 ["command.py", "address.py", "routers.py", "utils/utils.py"],
 [("word formatting", "address.py: GCodeWordPrecision; utils/utils.py: optimize_float"),
  ("move text", "command.py: Rapid, Cut, Circular __str__"),
  ("arc direction and splitting", "routers.py: route_edge; utils/utils.py: is_arc_clockwise2")],
 None, ["Operation.commands (start, end, mid, center, feed) against the text of the same operation"])

prop("C12", "The preview shows the planned motion where it will happen",
 """The preview shapes of a job contain, per operation, the moves of that operation in order after the initial retract,
 lines as lines and arcs as arcs through their planned start, mid and end, placed in world coordinates by the job's
 plane. No move with non-zero length is missing and nothing else is shown.""",
 ["inputs", "configurations"],
 "all operations, shapes and job planes for which edges are requested",
 """No test checks preview geometry.""",
 ["fluent.py", "visualize.py", "command.py"],
 [("edge conversion", "command.py: to_ais_shape"), ("placement", "visualize.py: visualize_job_as_edges")],
 None, ["Job.to_shapes(as_edges=True), Job.show(callback)"])

prop("C13", "Programs depend only on geometry relative to the job plane",
 """Moving the part together with the job plane by any rigid motion, or building the same shape at the origin and moving
 it into place, gives the same cutting motion up to the output precision, for every operation. Heights are measured
 from the job plane along its normal.""",
 ["inputs", "configurations"],
 "all shapes and operations and all rigid motions (translations and rotations) of part plus job plane",
 """The tests use job planes on the top face of boxes at the origin only.""",
 ["operations/profile.py", "operations/pocket.py", "operations/drill.py", "fluent.py", "utils/geometry_op.py"],
 [("world to job transformation", "operations/profile.py, operations/pocket.py: transformShape(job.top.fG); operations/drill.py")])

prop("C14", "Contours are cut exactly once, each branch from the inside out",
 """Turning a tree of nested contours into cutting sequences uses every contour exactly once, keeps in each sequence the
 order from the innermost contour outward with every contour directly followed by the one it is nested in, starting
 at an innermost contour and taking longer chains first. While contours are generated, every contour without children
 stays on offer until it is closed or branched, so none is left unprocessed.""",
 ["inputs", "histories"],
 "all tree shapes and all orders in which branches are added and leaves are closed",
 """One test has a single fixed tree.""",
 ["utils/tree.py", "operations/pocket.py"],
 [("sequence extraction", "utils/tree.py: Tree.sequences"), ("open leaves", "utils/tree.py: Tree.next_unlocked, Node.branch, Node.lock")],
 [("nodes", "contours with parent links and closed flags", "utils/tree.py: Tree.nodes")],
 ["Tree public API"])

prop("C15", "Zig-zag filling cuts each scan line once and links along the boundary",
 """Zig-zag filling of a region cuts every scan line piece inside the region exactly once, spaced by the stepover, and
 connects consecutive pieces only along the region's boundary; it never crosses outside the region. Walking the boundary
 from an end point always reaches the nearest end point not yet used in one of the two directions, or reports that none
 is left.""",
 ["inputs", "histories"],
 "all polygons (several, with corners anywhere relative to the scan lines), stepovers, and orders of link queries",
 """No existing test that runs in this environment covers zig-zag filling or boundary links.""",
 ["operations/strategy.py", "utils/linked_polygon.py", "utils/utils.py"],
 [("scan line generation and clipping", "operations/strategy.py: ZigZagStrategy.process; utils/utils.py: WireClipper"),
  ("boundary walk", "utils/linked_polygon.py: LinkedPolygon.nearest_linked")],
 [("unused end points", "linked points not yet consumed", "utils/linked_polygon.py: _linked_points")],
 ["ZigZagStrategy.process, LinkedPolygon public API"])

prop("C16", "3D surfacing follows the surface without gouging and finishes it",
 """In a 3D surfacing program every cutting position lies at or above the height the tool can reach there without
 entering the selected surface, inside the requested region, with neighbouring positions no farther apart than the
 interpolation step. With a stepdown no pass lowers any position by more than it, and at the end every position has been
 cut down to the surface; the positions leave no part of the region farther away than one stepover, as far as the surface
 does not rise above the job surface. The tool moves sideways at rapid speed only at the rapid height, descends at rapid
 speed straight and only to the operation safe height, and enters the material straight down.""",
 ["inputs", "configurations"],
 """all surfaces (steps, slopes, flat faces of any outline, located or not), tools, region offsets, stepdowns of either
 sign, stepovers, interpolation steps and job planes; whatever heights the drop cutter answers""",
 """The one existing test of 3D surfacing needs opencamlib, which is not installed, and surfaces a single flat face.""",
 ["operations/op3d.py", "operations/strategy.py", "operations/base_operation.py"],
 [("triangles of the selected faces for the drop cutter", "operations/op3d.py: Surface3D.shape_to_triangles"),
  ("passes, chopping sequences by depth", "operations/op3d.py: Surface3D.__post_init__, _chop_sequences_by_depth"),
  ("region offset", "operations/base_operation.py: FaceBaseOperation.offset_boundary")],
 [("stock height", "lowest height cut so far at each position", "operations/op3d.py: commands")])

prop("C17", "The same request always gives the same program",
 """Building the same job from the same inputs gives the identical program text each time, no matter what was built or
 rendered before, in this process or another, and rendering a program twice gives the same text. Shapes, lists and tab
 settings handed in are left unchanged, so they can be used again.""",
 ["histories"],
 "all interleavings of building, rendering, previewing and reusing shapes, tools, tab settings and jobs, and process restarts",
 """Tests build each program once.""",
 ["fluent.py", "operations/tabs.py", "operations/pocket.py", "operations/profile.py", "utils/utils.py", "command.py"],
 [("pure planning from inputs", "operations/*.py"), ("caches keyed by value", "utils/utils.py: cached_dist2; visualize.py: cached_occ_color"),
  ("tab state reloaded per wire", "operations/tabs.py: load_wire, load_ordered_edges")])

prop("C18", "Impossible or unsafe requests are refused instead of planned",
 """A request that cannot be planned safely raises an error and yields no job: profiling without a tool diameter or with
 both offsets disabled, unsupported shapes, pocketing or avoiding areas that are not flat or lie above the job surface,
 drilling without targets or depth, tab spacing not larger than the tab width, and a profile needing more steps down than
 the allowed maximum. Valid requests of the same kinds are not refused.""",
 ["inputs", "configurations"],
 "all such requests in all combinations with otherwise valid arguments and at any position in a job's history",
 """Only a handful of refusals have a test, each with one input.""",
 ["fluent.py", "operations/pocket.py", "operations/profile.py", "operations/drill.py", "operations/tabs.py", "utils/geometry_op.py", "utils/utils.py"],
 [("argument checks", "fluent.py: Job.profile; operations/drill.py; operations/tabs.py: EdgeTabs"),
  ("depth and flatness checks", "operations/pocket.py: generate_depth_map; utils/geometry_op.py: PathFace.from_cq_face"),
  ("pass limit", "operations/profile.py: profile")],
 None, ["exceptions raised by the fluent calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
