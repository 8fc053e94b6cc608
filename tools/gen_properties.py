#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one edit point, stable ids)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    if len(title) > 80: print("TITLE", id, len(title))
    P.append(d)

# ------------------------------------------------------------------ strokes
p("C01", "An input batch is always a valid sequence, and a refused edit changes nothing",
  "Every sequence of stroke inputs a batch ever holds is valid: finite positions, non-negative finite times that never decrease, no two neighbours equal in both position and time, one tool type and one stroke unit length throughout, and each optional attribute (pressure in [0,1], tilt in [0,pi/2], orientation in [0,2pi]) present in all inputs or in none. An append, insert-over or set that would break this returns an error and leaves the batch exactly as it was; an accepted one has exactly the effect of the same operation on a plain list of inputs, including reads, iteration, erase, clear, duration and has-attribute queries.",
  ["histories", "inputs"], "all sequences of append/set/erase/clear/copy/transform calls on batches, with valid and invalid inputs, single and bulk",
  "stroke_input_batch_test.cc runs a few dozen hand-picked call sequences; validity is a relation between every new input and what earlier calls left in the batch (empty-after-erase, first/middle/last position, bulk appends of inputs that are only invalid against each other).",
  ["ink/strokes/input/stroke_input_batch.h", "ink/strokes/input/stroke_input_batch.cc", "ink/strokes/input/internal/stroke_input_validation_helpers.cc", "ink/strokes/input/stroke_input.h"],
  [("validate-then-write in Append/Set", "StrokeInputBatch::Append, Set, Create"), ("per-input and consecutive-input validation", "stroke_input_validation_helpers.cc")],
  state=[("data_", "flattened floats of all inputs", "StrokeInputBatch"), ("size_, tool_type_, stroke_unit_length_, has_*_", "shared format of the batch", "StrokeInputBatch")],
  observe=["StrokeInputBatch::Get/Size/begin/end/GetDuration/Has*"])
p("C02", "Copies of an input batch are independent values that share storage safely",
  "Copying, assigning, moving or self-appending input batches behaves as if each batch owned its inputs: no later mutation of one batch is ever visible through another batch or through a stroke built from it, whatever sequence of copies, deep copies, moves and mutations preceded it. A batch made by applying an affine transform has the transformed positions and every other attribute unchanged, and the source batch and its other copies are unaffected.",
  ["histories"], "all interleavings of copy, move, assign, append, set, erase, clear and transform over a set of batches sharing storage",
  "The tests copy one batch once; aliasing bugs need a particular order of copy, erase, mutate and re-copy over three or more handles.",
  ["ink/strokes/input/stroke_input_batch.h", "ink/strokes/input/stroke_input_batch.cc", "ink/types/internal/copy_on_write.h"],
  [("copy-on-write storage", "CopyOnWrite<std::vector<float>> data_")])
p("C03", "Copy-on-write handles are values: writes are private, reads share",
  "A copy-on-write handle always reads the value last written through that handle (or that it was copied or moved from at the time), never a value written through another handle. Copies share one stored object until one of them is written; a handle that is the only owner is written in place without copying; an emptied or moved-from handle reports having no value.",
  ["histories"], "all sequences of emplace, copy, move, assign, self-assign, mutable access, reset and destruction over several handles",
  "copy_on_write_test.cc checks single operations; ownership counts depend on the whole history over all handles.",
  ["ink/types/internal/copy_on_write.h"],
  [("shared_ptr use-count test before write", "CopyOnWrite::MutableValue"), ("copy/move assignment", "CopyOnWrite::operator=")])
p("C04", "An in-progress stroke accepts and refuses inputs atomically over its lifecycle",
  "An in-progress stroke accepts inputs only between being started and having its inputs finished; every refused call (not started, already finished, invalid against the inputs already accepted or queued, decreasing elapsed time on update) returns an error and leaves inputs, counts, mesh and flags unchanged. The real inputs it reports are exactly the accepted real inputs of all updates so far in order, its predicted inputs are exactly those of the last enqueue processed, and starting again or clearing discards everything.",
  ["histories"], "all call sequences of Start, Clear, EnqueueInputs, FinishInputs, UpdateShape, ResetUpdatedRegion, CopyToStroke with valid and invalid arguments",
  "in_progress_stroke_test.cc exercises each error once from one state; the guarantee is about every state reached by every call order, including failures in the middle.",
  ["ink/strokes/in_progress_stroke.h", "ink/strokes/in_progress_stroke.cc"],
  [("ValidateNewInputs / UpdateShape error paths", "in_progress_stroke.cc")],
  state=[("queued_real_inputs_, queued_predicted_inputs_", "inputs not yet modeled", "InProgressStroke"), ("processed_inputs_, real_input_count_", "inputs modeled so far", "InProgressStroke"), ("inputs_are_finished_, current_elapsed_time_", "phase", "InProgressStroke")])
p("C05", "Predicted inputs and batching leave no trace in a finished stroke",
  "The geometry an in-progress stroke has built (vertex positions, colour, opacity and texture attributes, triangles and outlines) depends only on the brush, the real inputs modeled, the predicted inputs of the last update and the current time: predictions that were later replaced, splitting the same real inputs over several updates, or reusing the object for another stroke first never change it. (The derivative and margin attributes kept for anti-aliasing are approximations computed from what an update touched and are not covered.)",
  ["histories", "inputs"], "all splits of an input sequence into updates, with all choices of predicted inputs in between, for every brush",
  "Tests compare single save/restore steps of one component; the guarantee crosses modeler, tip modeler and extruder and every split point.",
  ["ink/strokes/in_progress_stroke.cc", "ink/strokes/internal/stroke_shape_builder.cc", "ink/strokes/internal/stroke_input_modeler.cc", "ink/strokes/internal/brush_tip_modeler.cc", "ink/strokes/internal/brush_tip_extruder.cc", "ink/strokes/internal/brush_tip_extruder/geometry.cc"],
  [("save / restore of the stable prefix", "StrokeInputModeler::ExtendStroke, BrushTipModeler::UpdateStroke, BrushTipExtruder::ExtendStroke, Geometry::ClearSinceLastSave")])
p("C06", "The reported updated region covers everything that visibly changed",
  "After any sequence of updates since the region was last reset, every triangle that was added, removed or moved lies inside the reported updated region, and resetting the region empties it. A stroke reports a need for further updates exactly while inputs are queued or the time since the last real input has not reached the end of the range of a time-since-input behavior.",
  ["histories"], "all sequences of updates with real and predicted inputs between region resets, for every brush",
  "The tests check one update; regions must be accumulated over updates and over removed prediction geometry that is no longer there to inspect.",
  ["ink/strokes/in_progress_stroke.cc", "ink/strokes/internal/stroke_shape_update.h", "ink/strokes/internal/brush_tip_extruder.cc", "ink/strokes/internal/brush_tip_extruder/geometry.cc"],
  [("updated region union", "InProgressStroke::UpdateShape"), ("NeedsUpdate / ChangesWithTime", "InProgressStroke::NeedsUpdate")])
p("C07", "Stroke geometry is well formed: finite, indexed, outlined, one group per coat",
  "For every brush and input sequence, the mesh of an in-progress or finished stroke has only finite vertex positions, triangle indices within range, no vertex shared by two identical corners of one triangle, and outlines that list only existing vertices; there is exactly one render group per brush coat. The shape of a stroke copied out of an in-progress stroke has the same triangles, and the same outlines restricted to vertices of triangles (those of none are left out), with every corner within one packing step of the original, and its bounds are those of the original triangles.",
  ["inputs", "configurations"], "all valid brushes and all valid input sequences",
  "Extruder tests check hand-made tip states; malformed geometry arises from self-intersection, zero-size tips, breaks and merged prediction retriangulation reachable only through long input histories.",
  ["ink/strokes/internal/brush_tip_extruder.cc", "ink/strokes/internal/brush_tip_extruder/geometry.cc", "ink/strokes/stroke.cc", "ink/strokes/in_progress_stroke.cc"],
  [("retriangulation and outline bookkeeping", "brush_tip_extruder/geometry.cc"), ("mesh to partitioned mesh", "InProgressStroke::CopyToStroke")])
p("C08", "A stroke's shape always matches its brush and inputs",
  "A stroke's brush, inputs and shape always correspond: building from inputs, or changing inputs, brush tips, size or epsilon regenerates the shape exactly as a fresh stroke of the same brush and inputs, or an in-progress stroke drawn with them, would have it, while changing only the color, the paint or the input model, or setting an equal value, keeps the shape untouched (also one supplied by the caller). A rejected change returns an error and leaves the whole stroke unchanged, and copies of a stroke never see changes made to another.",
  ["histories"], "all sequences of construction, setter calls, failed setter calls and copies on strokes",
  "stroke_test.cc applies each setter once to a fresh stroke; correspondence must survive every order of setters, including passing a stroke its own inputs.",
  ["ink/strokes/stroke.h", "ink/strokes/stroke.cc", "ink/brush/brush.cc"],
  [("RegenerateShape on setter", "Stroke::SetBrush, SetBrushFamily, SetBrushSize, SetBrushEpsilon, SetInputs")])
p("C09", "The input modeler's stable results never change and stay ordered",
  "Modeled inputs reported as stable keep their values in every later update, their count never decreases while a stroke is extended, and the count of stable inputs never exceeds the count of modeled inputs. Modeled elapsed times and traveled distances never decrease along a stroke, neighbours are at least the brush's epsilon apart, the reported totals equal those of the last modeled input (overall and for real inputs), and the modeled inputs depend only on the real inputs and the predictions of the last update, the stable ones only on the real inputs, however they were split and whatever was predicted in between. Turning all inputs by a quarter turns modeled positions, velocities and accelerations and nothing else; pressure and tilt stay within what the inputs span.",
  ["histories", "inputs"], "all sequences of real and predicted input batches and update times",
  "The modeler tests extend a stroke two or three times with one recorded gesture.",
  ["ink/strokes/internal/stroke_input_modeler.h", "ink/strokes/internal/stroke_input_modeler.cc"],
  [("stable prefix + Save/Restore of the underlying modeler", "StrokeInputModeler::ExtendStroke")])
p("C10", "Brush behaviors evaluate to what their node lists mean, fixed tips never change",
  "A brush tip's properties at each modeled input are the tip's base properties modified by each behavior's value, computed as its post-order node list prescribes (sources mapped linearly from their range with clamp, repeat or mirror; response curves, binary operations, interpolation, constants, fallback filters and tool filters; an undefined value leaves the target as the last defined one set it), with additive offsets summed and multipliers multiplied over behaviors and the results clamped to their valid ranges. Tip states once fixed never change as the stroke is extended, and volatile ones are recomputed as if nothing had been predicted.",
  ["inputs", "histories", "configurations"], "all valid behavior node lists, modeled inputs and update histories",
  "brush_tip_modeler tests use single-source behaviors; evaluation is an interpreter whose meaning is defined for all programs of nodes.",
  ["ink/strokes/internal/brush_tip_modeler.cc", "ink/strokes/internal/brush_tip_modeler_helpers.cc", "ink/brush/brush_behavior.h"],
  [("behavior node stack machine", "ProcessBehaviorNode"), ("target modifiers", "ApplyModifiersToTipState / BrushTipModeler::AddNewTipState")])
# ------------------------------------------------------------------ geometry: meshes
p("C11", "A mesh format is accepted iff valid, and describes its layouts consistently",
  "Creating a mesh format succeeds exactly when its attribute list is non-empty and within the size limit, has exactly one position attribute of two components, and repeats no attribute id; the component counts, byte widths, offsets and strides it reports, packed and unpacked, are consistent with its attribute list. Equality, packed equivalence and unpacked equivalence compare exactly attribute ids, types and order (and index format for equality) as documented, and removing attributes keeps the order of the rest and never removes position.",
  ["inputs"], "all attribute lists and index formats, and all pairs of formats",
  "Tests list some formats; the rules quantify over all lists and pairs.",
  ["ink/geometry/mesh_format.h", "ink/geometry/mesh_format.cc"],
  [("format validation and layout tables", "MeshFormat::Create, WithoutAttributes, IsPackedEquivalent, IsUnpackedEquivalent")])
p("C12", "A mutable mesh behaves as arrays of vertices and triangles; bad ones are refused",
  "Sequences of append, insert, set, resize, clear, reset, clone and read-back operations on a mutable mesh leave exactly the vertex attributes and triangle indices that the same operations leave on plain arrays, with strides and raw data of matching size, and clones are independent. Triangle validation accepts a mesh exactly when all indices are in range and no triangle repeats an index; converting to immutable meshes fails exactly when validation fails, a kept attribute value is not finite or its range overflows, or the omitted attributes or custom packing parameters (one per attribute kept) are invalid, and never changes the mutable mesh.",
  ["histories", "inputs"], "all operation sequences over all formats and index widths",
  "mutable_mesh_test.cc tests operations singly on one or two formats.",
  ["ink/geometry/mutable_mesh.h", "ink/geometry/mutable_mesh.cc"],
  [("byte-level vertex/index storage", "MutableMesh::SetVertexPosition, AppendVertex, SetTriangleIndices, Resize"), ("ValidateMesh / ValidateTriangles", "mutable_mesh.cc")])
p("C13", "Packing a mesh attribute loses at most one quantization step and respects bounds",
  "For every packable attribute type, every packed value unpacks to the nearest representable value, so the error never exceeds half a quantization step (one over the bit range of the attribute's bounds), bounds and already-quantized values are reproduced, values are packed into disjoint bit fields without affecting neighbours, and packing is idempotent. Custom coding parameters are accepted exactly when they match the format and can represent every value in the bounds.",
  ["inputs"], "all attribute types, bounds, coding parameters and values",
  "mesh_packing_test.cc checks chosen values per type; rounding and bit-field overlap errors show only for particular values and neighbours.",
  ["ink/geometry/internal/mesh_packing.h", "ink/geometry/internal/mesh_packing.cc", "ink/geometry/mesh_packing_types.h"],
  [("PackAttribute / UnpackAttribute bit fields", "mesh_packing.cc"), ("ComputeCodingParams", "mesh_packing.cc")])
p("C14", "Immutable and partitioned meshes preserve the geometry they were built from",
  "Building an immutable or partitioned mesh keeps every triangle of the source exactly once, in order, with each corner's attributes equal up to packing precision (the nearest packed value, except that positions may move one step further where that keeps triangles from being flipped: afterwards either no triangle is flipped or every position is the nearest), each sub-mesh within the vertex limit and using all its vertices, and the bounds and attribute ranges it reports are those of its vertices. Outlines and render groups are kept in order and every outline point refers to the vertex it was given (vertices that belong to no triangle are left out); malformed input (bad formats, out-of-range outline indices, empty meshes, more than 65536 meshes) yields an error and never a mesh.",
  ["inputs", "configurations"], "all meshes, vertex limits, outlines, omitted attributes and groups",
  "Tests partition two or three meshes at the 16-bit limit; the partitioning is a greedy algorithm over arbitrary index structure.",
  ["ink/geometry/mesh.cc", "ink/geometry/partitioned_mesh.h", "ink/geometry/partitioned_mesh.cc", "ink/geometry/mutable_mesh.cc", "ink/geometry/internal/mesh_packing.cc"],
  [("greedy partitioning", "PartitionTriangles"), ("construction and validation", "PartitionedMesh::FromMeshGroups, FromMutableMeshGroups, Mesh::Create")])
p("C15", "Spatial queries on a shape visit exactly the triangles that intersect the query",
  "Visiting the triangles of a partitioned mesh that intersect a point, segment, triangle, rectangle, quadrilateral or other mesh, under any transform, calls the visitor for exactly the triangles that geometrically intersect it, each once, stops immediately when told to, and does nothing for an empty mesh or empty query. Initializing the spatial index early or late never changes the result.",
  ["inputs", "histories"], "all shapes, query types and transforms (including non-invertible ones), and all early-stop points",
  "partitioned_mesh_test.cc checks a few shapes; missed triangles need a specific bounding-box split, query and transform.",
  ["ink/geometry/partitioned_mesh.cc", "ink/geometry/internal/static_rtree.h", "ink/geometry/internal/algorithms.cc"],
  [("R-tree query + exact test", "VisitIntersectedTriangles")])
p("C16", "Coverage is the area share of touched triangles; its threshold test agrees",
  "The coverage of a shape by a query is the total area of the triangles that the query intersects divided by the total area of the shape, 0 for an empty shape or disjoint query and always within [0,1]. The threshold test answers whether coverage is greater than the threshold and agrees with the coverage for every threshold.",
  ["inputs"], "all shapes, queries, transforms and thresholds",
  "Tests use shapes with two or three equal triangles and a handful of thresholds.",
  ["ink/geometry/partitioned_mesh.h", "ink/geometry/partitioned_mesh.cc"],
  [("area sums with early exit", "Coverage, CoverageIsGreaterThan")])
p("C17", "The spatial index visits exactly the elements whose bounds meet the query",
  "For every set of elements and bounds, a query of the static R-tree with a rectangle visits each element whose bounds intersect the closed rectangle exactly once and no other element, and stops as soon as the visitor asks, for any element count and branching factor.",
  ["inputs"], "all element sets, bounds (including degenerate and identical ones) and query rectangles",
  "static_rtree_test.cc uses fixed grids; off-by-one node ranges show only for particular element counts.",
  ["ink/geometry/internal/static_rtree.h"], [("sort-tile-recursive build and stack search", "StaticRTree")])
# ------------------------------------------------------------------ geometry: shapes
p("C18", "Intersection predicates tell exactly whether two closed shapes share a point",
  "For every pair of points, segments, triangles, rectangles and quadrilaterals, including degenerate ones and shapes that only touch, intersection is reported exactly when the two closed point sets have a common point. It is symmetric in its arguments, unaffected by the winding or vertex order of the shapes, and with transforms agrees with transforming the shapes first.",
  ["inputs"], "all pairs of shapes of all types, including degenerate, touching and containing ones, and all transforms",
  "intersects_test.cc enumerates hand-picked pairs; separating-axis bugs show only in particular degenerate configurations.",
  ["ink/geometry/intersects.h", "ink/geometry/intersects.cc", "ink/geometry/internal/intersects_internal.cc"],
  [("pairwise exact tests", "intersects_internal.cc")])
p("C19", "Distance is the Euclidean gap: zero iff shapes intersect, symmetric, and minimal",
  "The distance between any two points, segments, triangles, rectangles or quadrilaterals is the smallest Euclidean distance between a point of one and a point of the other: zero exactly when they intersect, symmetric, and unaffected by winding or vertex order.",
  ["inputs"], "all pairs of shapes of all types",
  "distance_test.cc lists chosen pairs.",
  ["ink/geometry/distance.h", "ink/geometry/distance.cc"], [("pairwise closest-edge computation", "distance.cc")])
p("C20", "An envelope is the smallest axis-aligned box of everything added to it",
  "Starting empty, after adding any sequence of points, segments, triangles, rectangles, quadrilaterals and other envelopes, one at a time or as a range of them, an envelope is empty exactly when nothing (or only empty things) was added, and otherwise is the smallest axis-aligned rectangle containing all of it, independent of order. Resetting empties it, and constructing it from objects equals adding them to an empty one.",
  ["histories", "inputs"], "all sequences of additions, copies and resets",
  "Tests add one or two objects.",
  ["ink/geometry/envelope.h", "ink/geometry/envelope.cc"], [("min/max accumulation with empty sentinel", "Envelope::Add")])
p("C21", "Rectangles and quadrilaterals keep their invariants under every operation",
  "Rectangles always have ordered, non-negative extents whatever corners or negative sizes they were made from, and quadrilaterals always have non-negative width, normalized rotation as documented; setters, offset (or inset), scale, translation, resizing, fitting an aspect ratio, joining and conversion change exactly the documented quantities and keep the documented anchor (centre or side). Containment is that of the closed point set, joining yields the smallest extension (along the shape's own axes) containing both, and corners, edges, center, area and axes agree with each other.",
  ["inputs", "histories"], "all rectangles, quadrilaterals and setter sequences",
  "rect_test.cc and quad_test.cc check one setter each on one shape.",
  ["ink/geometry/rect.h", "ink/geometry/rect.cc", "ink/geometry/quad.h", "ink/geometry/quad.cc"], [("normalizing factories and setters", "rect.cc, quad.cc")])
p("C22", "Affine transforms form an algebra: composition, inverse and application agree",
  "Applying a product of transforms to any point equals applying them one after the other; a transform's inverse exists exactly when its determinant is non-zero, and composed with it gives the identity; factory functions for translation, scale, rotation and shear have exactly the documented matrices. Applying a transform to segments, triangles, rectangles and quadrilaterals gives the shape of the transformed points (quadrilaterals keeping parallelogram shape), and finding the transform between two segments, triangles or quadrilaterals returns one that maps the first onto the second, or none when impossible.",
  ["inputs"], "all transforms, shapes and pairs",
  "Tests check chosen matrices.",
  ["ink/geometry/affine_transform.h", "ink/geometry/affine_transform.cc"], [("matrix product, inverse and apply", "affine_transform.cc")])
p("C23", "Vectors, segments and triangles answer elementary geometry questions exactly",
  "On vectors, dot product, determinant, magnitude, direction, orthogonal and parallel tests agree with their defining formulas; on segments, length, midpoint, interpolation, bounds and projection of a point do; a triangle's signed area is positive exactly when its vertices turn in the positive direction, and it contains a point exactly when the point is in the closed triangle whatever its winding. Results do not depend on argument or vertex order except as the formulas say.",
  ["inputs"], "all vectors, segments, triangles and points",
  "Unit tests sample a few values for each function.",
  ["ink/geometry/vec.h", "ink/geometry/vec.cc", "ink/geometry/point.h", "ink/geometry/segment.h", "ink/geometry/triangle.h", "ink/geometry/triangle.cc"], [("formulas", "vec.h, segment.h, triangle.cc")])
p("C24", "Hulls, prepared polylines and tessellations describe the sets they came from",
  "The convex hull of any points (duplicates, collinear ones, few or hundreds) is the strictly convex anticlockwise cycle of input points that contains every input point. Preparing a polyline cuts its loose ends at the first and last place where it crosses or touches itself, or joins an end to the nearest later (earlier) part of the line within the given distance if the walk to it is long enough, both absolutely and for the gap, and not too much would otherwise be trimmed; nothing else is dropped or reordered, it adds at most one point on the line at either end, and it works for every polyline, with repeated points or fewer than two. A mesh made from a closed polyline covers exactly the points around which it winds, once; it fails with InvalidArgument for fewer than three points and fails for collinear ones. Tessellating contours keeps the input vertices in front, covers what the winding rule says, and interpolates each new vertex from the vertices it is connected to.",
  ["inputs"], "all point sequences, including duplicates, collinear and degenerate ones; exact results for small whole coordinates (what rounding decides is left open)",
  "Tests use a few dozen hand-made polygons and polylines; losing vertical collinear points or the extreme ones of more than 500 points, and crashing on segments of no length went unnoticed.",
  ["ink/geometry/convex_hull.h", "ink/geometry/internal/convex_hull_helper.h", "ink/geometry/internal/polyline_processing.cc", "ink/geometry/tessellator.cc", "ink/geometry/internal/generic_tessellator.h"], [("Graham scan after pruning", "ConvexHull"), ("cut or join ends", "ProcessPolylineForMeshCreation"), ("map back and interpolate", "Tessellate, PopulateResult")])
p("C25", "Angle normalization is the unique equivalent; arithmetic is that of radians",
  "Normalizing an angle returns the equivalent angle in [0, 2pi), and normalizing about zero the one in (-pi, pi], for every finite angle including tiny negative and boundary values, exact multiples of the period and values already in range (which are unchanged). Construction and reading in radians or degrees, comparison, min, max, abs, mod, trigonometry, arithmetic and compound assignment agree with the same operations on the value in radians, and an angle prints as its value in multiples of pi; the native (JNI) normalization entry points return exactly the same.",
  ["inputs"], "all finite float angles and scalars",
  "angle_test.cc checks about a dozen values; half-open interval errors appear only at single floats.",
  ["ink/geometry/angle.h", "ink/geometry/angle.cc", "ink/geometry/internal/jni/angle_jni.cc"], [("fmod plus boundary repair", "Angle::Normalized, NormalizedAboutZero")])
# ------------------------------------------------------------------ types
p("C26", "Short durations are extended reals: exact on values, never NaN",
  "Creating, converting, comparing, negating, adding, subtracting, scaling and dividing durations never produces NaN, whatever finite, infinite or NaN operands are given, with the documented infinite results where IEEE arithmetic would give NaN (NaN input gives infinity, an infinite left operand absorbs, zero by zero is infinite, and scaling by NaN follows the sign of the duration). On all other operands the results are the IEEE single precision ones, seconds and milliseconds agree by a factor of 1000, comparison is a total order, compound assignments equal their binary forms, and printing distinguishes finite from infinite.",
  ["inputs"], "all pairs of durations and scalars, including infinities, NaN, signed zeros, denormals and overflow",
  "duration_test.cc checks selected special cases; operator/special value combinations (for example zero times infinity) are not all covered.",
  ["ink/types/duration.h", "ink/types/duration.cc"], [("NaN guards in operators", "duration.cc, duration.h")])
p("C27", "Physical distances convert between units consistently and order like reals",
  "A physical distance made from centimeters, inches or meters reads back in every unit with 1 m = 100 cm and 1 in = 2.54 cm to single precision, and reading back in the unit it was made from recovers the value. Comparison, negation, addition, subtraction, scaling, division and ratio agree with the same operations on the value in centimeters, compound assignments equal their binary forms, finiteness is reported exactly, and printing shows the value in centimeters with its unit.",
  ["inputs"], "all pairs of distances and scalars",
  "physical_distance_test.cc samples a few values.",
  ["ink/types/physical_distance.h", "ink/types/physical_distance.cc"], [("single stored unit", "PhysicalDistance::value_centimeters_")])
p("C28", "Iterator ranges and small arrays are faithful bounded sequences",
  "A range made from two iterators or a pair delivers exactly the elements from the first up to but excluding the second, in order, with matching size and emptiness, for every kind of iterator. A small array is a sequence of at most its capacity: construction, resize (with or without fill value), element writes, copying, moving and comparison have the effect of the same operation on a plain list, unwritten new elements are value-initialized, and equality compares size and elements only.",
  ["histories", "inputs"], "all sub-ranges and iterator categories; all sequences of operations on small arrays of every size and capacity",
  "The seven range tests and small_array_test.cc sample a few shapes; stale elements after shrink-and-grow need operation sequences.",
  ["ink/types/iterator_range.h", "ink/types/small_array.h"], [("iterator pair", "iterator_range"), ("fixed storage plus size", "SmallArray")])
p("C29", "URIs: accepted exactly by the grammar, and normalization is canonical",
  "Parsing accepts a string exactly when it is of the documented form (optional ink scheme, optional authority, an asset type and name, an optional version tag, with the documented characters and limits), and every other string yields an error. Printing an accepted URI normalized gives the one canonical text that parses back to an equal URI; two URIs are equal exactly when their canonical texts are, and the reported asset type, name, revision and so on are those of the text.",
  ["inputs"], "all strings",
  "uri_test.cc lists some accepted and refused strings; grammar edge positions are combinatorial.",
  ["ink/types/uri.h", "ink/types/uri.cc"], [("hand-written parser", "Uri::Parse")])
p("C30", "JNI bridging: exact text, balanced references, errors become exceptions",
  "Viewing a Java string natively yields exactly its modified-UTF-8 text, empty for a null string, and every character buffer acquired from the VM is released exactly once with the string it came from, on every path. Native errors become one pending Java exception of the documented class with the message kept, success raises nothing, and a pending Java exception converts back to a status of the corresponding code with its message and is cleared.",
  ["inputs", "fault_sequences"], "all strings (null, empty, embedded zero, long), scopes and nesting of views, all status codes and exception classes",
  "No JNI test runs natively; leaks and double releases are invisible to value tests.",
  ["ink/jni/internal/jni_string_util.h", "ink/jni/internal/jni_string_util.cc", "ink/jni/internal/jni_throw_util.h", "ink/jni/internal/jni_throw_util.cc"], [("RAII acquire/release", "JStringView")])
# ------------------------------------------------------------------ color
p("C31", "Color conversions round trip, stay in range and follow the published spaces",
  "A color made in any supported format reads back in that format: 8-bit channels exactly (for every alpha, also premultiplied), linear float channels as given, gamma-encoded ones by the sRGB transfer function and its inverse, and premultiplied forms scaled by alpha. For encoded values in [0,1] the transfer functions rise, are inverse to each other and fix 0 and 1. No operation ever yields a NaN channel or an alpha outside [0,1]; clamping and scaling to gamut yield in-gamut colors, leave in-gamut colors alone, and scaling keeps the proportions of positive channels. Conversion between color spaces keeps alpha, follows the chromaticities of the primaries and the D65 white point, round trips, and to the same space is the identity. Equality demands the same space and channels.",
  ["inputs", "histories"], "all formats, color spaces and channel values including NaN and infinities, and sequences of operations",
  "color_test.cc samples some colors.",
  ["ink/color/color.h", "ink/color/color.cc", "ink/color/color_space.h", "ink/color/color_space.cc", "ink/color/color_helpers.h"], [("format conversions and gamut operations", "Color::FromFloat, AsFloat, AsUint8, ClampedToGamut, ScaledToGamut, InColorSpace"), ("transfer functions and matrices", "color_space.cc")])
# ------------------------------------------------------------------ brush
p("C32", "Brush components are accepted exactly when valid, and setters are all-or-nothing",
  "A brush, brush family, coat, tip or paint can be created exactly when every numeric parameter is in its documented range, coats are within their limit, identifiers are brush-family identifiers, and all texture layers are consistent; otherwise creation returns an error. A brush setter with an invalid value returns an error and leaves the brush unchanged, with a valid value changes exactly that property, and copies of brushes are independent.",
  ["inputs", "histories"], "all parameter combinations, including NaN, infinities and boundary values, and all setter sequences",
  "Tests try one invalid value per field.",
  ["ink/brush/brush.cc", "ink/brush/brush_family.cc", "ink/brush/brush_coat.cc", "ink/brush/brush_tip.cc", "ink/brush/brush_paint.cc"], [("Validate* functions", "ink/brush/*.cc")])
p("C33", "A behavior is valid iff its nodes form complete trees of valid nodes",
  "A brush behavior is accepted exactly when every node is individually valid (enumerators in range, finite and distinct range bounds, non-negative damping gaps, time sources only with clamping and so on) and the node list is a post-order list of trees: each operator node finds its inputs, and each target consumes a value, with nothing left over. An empty list is valid, and validity depends on nothing but the list.",
  ["inputs"], "all node lists up to a length, with valid and invalid nodes",
  "brush_behavior_test.cc tries a handful of lists.",
  ["ink/brush/brush_behavior.h", "ink/brush/brush_behavior.cc"], [("stack-depth simulation", "ValidateBrushBehavior")])
p("C34", "Easing functions are the documented curves and pass through their end points",
  "Every valid easing function maps 0 to 0 and 1 to 1 (except step functions that jump at an end as documented, and linear ones given points at x = 0 or x = 1 themselves), is evaluated for every finite input and always terminates; linear ones interpolate their points (and (0, 0) and (1, 1); several points at one x make a jump), step functions take exactly the documented number of equal steps, and cubic Bezier ones lie on the curve of their control points. An easing function is accepted exactly when its parameters are finite and in range and its points are in non-decreasing order.",
  ["inputs"], "all easing parameters and input values",
  "easing_implementation_test.cc samples values; solver set-up loops depend on parameters.",
  ["ink/brush/easing_function.cc", "ink/strokes/internal/easing_implementation.cc"], [("curve set-up and evaluation", "EasingImplementation")])
# ------------------------------------------------------------------ rendering
p("C35", "Bitmaps are accepted exactly when dimensions, format and pixel data agree",
  "A bitmap is valid exactly when its width and height are positive, its color format and color space are known, and its pixel data has exactly width times height times bytes-per-pixel bytes, without arithmetic overflow for any dimensions; otherwise validation returns an error and nothing is read.",
  ["inputs"], "all dimensions, formats and data sizes",
  "bitmap tests use small sizes; overflow needs extreme ones.",
  ["ink/rendering/bitmap.h", "ink/rendering/bitmap.cc"], [("ValidateBitmap", "bitmap.cc")])
# ------------------------------------------------------------------ geometry of strokes
p("C36", "A stroke covers the area its tip sweeps, to within two brush epsilons",
  "Given the successive states of a tip, the stroke extruder produces a mesh that covers every point the tip covers on the way from each state to the next, except within two brush epsilons of the edge of that area, and no point more than two brush epsilons outside of it, for tips of constant size and shape on paths of gentle turns and for round tips of changing size. States smaller than the epsilon interrupt the stroke, states inside their predecessor add nothing, larger states swallow the ones inside of them, and what is covered depends on the fixed states and the latest volatile ones only, not on how often the stroke was extended or which volatile states were replaced.",
  ["histories", "inputs"], "all tip shapes, paths of gentle turns, size sequences of round tips, and all divisions into extensions with fixed and volatile states",
  "brush_tip_extruder tests compare a few hand-made outlines; holes or lost ends depend on shapes, directions and on what was extended and taken back before.",
  ["ink/strokes/internal/brush_tip_extruder.cc", "ink/strokes/internal/brush_tip_shape.cc", "ink/strokes/internal/circle.h", "ink/strokes/internal/circular_extrusion_helpers.cc", "ink/strokes/internal/brush_tip_extrusion.h", "ink/strokes/internal/brush_tip_extrusion.cc"], [("tangents between tips, containment and break points", "BrushTipShape, BrushTipExtruder"), ("save points for volatile extrusions", "BrushTipExtruder::ExtendStroke")])

p("C37", "The native methods give Java the C++ objects: one owner, same values, no leaks",
  "Each native method that makes an object (batch, stroke, stroke in progress, shape, mesh, mesh format, or brush component) returns the address of a new object that no other Java object owns, whose value is that of the corresponding C++ construction and stays so whatever is done to, or freed from under, the objects it was made from. A method changes at most the object it is called on, and then as the C++ operation would; a refused call changes nothing, reports the error of the C++ operation (as an exception or as text, as that method does), and keeps nothing. What Java reads (counts, inputs, bounds, outlines, buffers of vertices and of 16-bit indices, unpacking parameters) is what C++ reads. When all objects are freed, all their memory is, and the JNI rules (no call with an exception pending, arrays and strings released, right classes and signatures) are kept throughout.",
  ["inputs", "histories"], "all histories of making, changing, copying, reading and freeing objects through the native methods, with valid and invalid arguments",
  "There are no unit tests of the native methods at all; leaks, shared ownership and stale buffers need particular histories and failing calls.",
  ["ink/strokes/internal/jni/stroke_input_batch_jni.cc", "ink/strokes/internal/jni/stroke_jni.cc", "ink/strokes/internal/jni/in_progress_stroke_jni.cc", "ink/strokes/internal/jni/stroke_input_jni_helper.cc", "ink/geometry/internal/jni/partitioned_mesh_jni.cc", "ink/geometry/internal/jni/mesh_jni.cc", "ink/geometry/internal/jni/mesh_format_jni.cc", "ink/brush/internal/jni/brush_jni.cc", "ink/brush/internal/jni/brush_family_jni.cc", "ink/brush/internal/jni/brush_coat_jni.cc", "ink/brush/internal/jni/brush_tip_jni.cc", "ink/brush/internal/jni/brush_paint_jni.cc", "ink/brush/internal/jni/brush_behavior_jni.cc"], [("ownership of peers through jlong addresses", "native create, alloc, copy and free methods"), ("narrowing indices to 16 bits with buffers kept per coat", "in_progress_stroke_jni.cc nativeGetRawTriangleIndexData"), ("validation with the object freed on failure", "nativeValidateOrDeleteAndThrow, nativeCreateTextureLayer")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
