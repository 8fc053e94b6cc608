"""What decides each property: model-checking configurations, drivers and trace specifications."""
def T(module, **k): return dict(module=module, **k)
NOT_APPLICABLE = {}
CHECKS = {
 "C26": dict(mc=[dict(module="MC_Durations")], parts=[dict(driver="duration.cc", absl="system", traces=[T("Trace_Durations", chunk=5000)])],
   assumptions=["hardware IEEE single precision arithmetic is the primitive the rules are stated over"]),
}
CHECKS["C03"] = dict(mc=[dict(module="MC_CopyOnWrite", emit=True, cfg_thorough="MC_CopyOnWrite_thorough.cfg")],
   parts=[dict(driver="copy_on_write.cc", traces=[T("Trace_CopyOnWrite", chunk=8000)])])
CHECKS["C25"] = dict(mc=[dict(module="MC_Quantities")], parts=[dict(driver="angle.cc", jni=True, sources=["ink/geometry/internal/jni/angle_jni.cc"], traces=[T("Trace_Quantities", chunk=9000)])])
CHECKS["C27"] = dict(mc=[dict(module="MC_Quantities")], parts=[dict(driver="physical_distance.cc", absl="system", traces=[T("Trace_Quantities", chunk=9000)])])
CHECKS["C28"] = dict(mc=[dict(module="MC_SmallArrays", emit=True, cfg_thorough="MC_SmallArrays_thorough.cfg")], parts=[dict(driver="small_array.cc", traces=[T("Trace_SmallArrays", chunk=8000)])])
CHECKS["C29"] = dict(mc=[dict(module="MC_Uris", cfg_thorough="MC_Uris_thorough.cfg")], parts=[dict(driver="uri.cc", traces=[T("Trace_Uris", chunk=6000)])])
CHECKS["C30"] = dict(mc=[dict(module="MC_JniBridge", emit=True, cfg_thorough="MC_JniBridge_thorough.cfg")], parts=[dict(driver="jni_bridge.cc", jni=True, traces=[T("Trace_JniBridge", chunk=5000)])])
CHECKS["C01"] = dict(mc=[dict(module="MC_InputBatches", cfg="MC_InputBatches1.cfg", emit=True, cfg_thorough="MC_InputBatches1_thorough.cfg")], parts=[dict(driver="input_batch.cc", traces=[T("Trace_InputBatches", chunk=3000)])])
CHECKS["C02"] = dict(mc=[dict(module="MC_InputBatches", cfg="MC_InputBatches2.cfg", emit=True, cfg_thorough="MC_InputBatches2_thorough.cfg")], parts=[dict(driver="input_batch.cc", traces=[T("Trace_InputBatches", chunk=3000)])])
CHECKS["C04"] = dict(mc=[dict(module="MC_InProgress", emit=True, cfg_thorough="MC_InProgress_thorough.cfg")], parts=[dict(driver="in_progress.cc", traces=[T("Trace_InProgress", chunk=3000)])])
for p, n in (("C05", 1500), ("C06", 2000), ("C07", 120)):
  CHECKS[p] = dict(mc=[dict(module="MC_Incremental", cfg="MC_Incremental_region.cfg" if p == "C06" else "MC_Incremental.cfg", emit=True)], parts=[dict(driver="in_progress.cc", traces=[T("Trace_StrokeGeometry", chunk=n)])])
CHECKS["C08"] = dict(mc=[dict(module="MC_Strokes", emit=True), dict(module="MC_Strokes", cfg="MC_Strokes3.cfg", emit=True), dict(module="MC_Strokes", cfg="MC_Strokes2.cfg", emit=True, tier="thorough")],
   parts=[dict(driver="stroke.cc", traces=[T("Trace_Strokes", chunk=3000)])])
CHECKS["C09"] = dict(mc=[dict(module="MC_Incremental", emit=True)], parts=[dict(driver="modeling.cc", traces=[T("Trace_InputModeling", chunk=900)])])
CHECKS["C10"] = dict(mc=[dict(module="MC_Behaviors", emit=True, cfg_thorough="MC_Behaviors_thorough.cfg")], parts=[dict(driver="behavior.cc", traces=[T("Trace_Behaviors", chunk=4000)])])
for p, mc, n in (("C18", True, 5000), ("C19", True, 2000), ("C15", False, 1500), ("C16", False, 1500)):
  CHECKS[p] = dict(mc=[dict(module="MC_Plane", emit=True, cfg_thorough="MC_Plane_thorough.cfg")], parts=[dict(driver="plane.cc", traces=[T("Trace_Plane", chunk=n)])])
CHECKS["C17"] = dict(mc=[dict(module="MC_SpatialIndex", cfg_thorough="MC_SpatialIndex_thorough.cfg", workers=4)], parts=[dict(driver="rtree.cc", traces=[T("Trace_SpatialIndex", chunk=700)])])
CHECKS["C20"] = dict(mc=[dict(module="MC_Envelopes", emit=True, cfg_thorough="MC_Envelopes_thorough.cfg", workers=4)], parts=[dict(driver="envelope.cc", traces=[T("Trace_Envelopes", chunk=8000)])])
CHECKS["C21"] = dict(mc=[dict(module="MC_Rectangles", emit=True, cfg_thorough="MC_Rectangles_thorough.cfg", workers=4), dict(module="MC_Quads", emit=True, cfg_thorough="MC_Quads_thorough.cfg", workers=4)],
  parts=[dict(driver="rect.cc", beh=["MC_Rectangles"], traces=[T("Trace_Rectangles", chunk=4000)]), dict(driver="quad.cc", beh=["MC_Quads"], traces=[T("Trace_Quads", chunk=2500)])])
CHECKS["C22"] = dict(mc=[dict(module="MC_AffineMaps", emit=True), dict(module="MC_AffineMaps", cfg="MC_AffineMaps_thorough.cfg", tier="thorough", workers=4)], parts=[dict(driver="affine.cc", traces=[T("Trace_AffineMaps", chunk=9000)])])
CHECKS["C23"] = dict(mc=[dict(module="MC_Vectors", emit=True), dict(module="MC_Vectors", cfg="MC_Vectors_thorough.cfg", tier="thorough", workers=4)], parts=[dict(driver="vectors.cc", traces=[T("Trace_Vectors", chunk=6000)])])
CHECKS["C32"] = dict(mc=[dict(module="MC_BrushParts", emit=True, cfg_thorough="MC_BrushParts_thorough.cfg")], parts=[dict(driver="brush_parts.cc", traces=[T("Trace_BrushParts", chunk=4000)])])
CHECKS["C33"] = dict(mc=[dict(module="MC_Behaviors", cfg="MC_Behaviors_all.cfg", emit=True, cfg_thorough="MC_Behaviors_all_thorough.cfg")], parts=[dict(driver="behavior_lists.cc", traces=[T("Trace_BrushParts", chunk=6000)])])
CHECKS["C35"] = dict(mc=[dict(module="MC_Bitmaps", cfg_thorough="MC_Bitmaps_thorough.cfg", workers=4)], parts=[dict(driver="bitmap.cc", traces=[T("Trace_Bitmaps", chunk=6000)])])
CHECKS["C34"] = dict(mc=[dict(module="MC_Easing", emit=True, cfg_thorough="MC_Easing_thorough.cfg")], parts=[dict(driver="easing.cc", traces=[T("Trace_Easing", chunk=1500)])])
CHECKS["C11"] = dict(mc=[dict(module="MC_MeshFormats", emit=True, cfg_thorough="MC_MeshFormats_thorough.cfg")], parts=[dict(driver="mesh_format.cc", traces=[T("Trace_MeshFormats", chunk=7000)])])
CHECKS["C13"] = dict(mc=[dict(module="MC_Packing", emit=True, cfg_thorough="MC_Packing_thorough.cfg", workers=4)], parts=[dict(driver="packing.cc", traces=[T("Trace_Packing", chunk=6000)])])
CHECKS["C12"] = dict(mc=[dict(module="MC_MutableMeshes", emit=True, cfg_thorough="MC_MutableMeshes_thorough.cfg")], parts=[dict(driver="mutable_mesh.cc", traces=[T("Trace_MutableMeshes", chunk=5000)])])
CHECKS["C14"] = dict(mc=[dict(module="MC_Partitions", emit=True), dict(module="MC_Partitions", cfg="MC_Partitions_thorough.cfg", tier="thorough", workers=4), dict(module="MC_Flips", emit=True), dict(module="MC_Flips", cfg="MC_Flips_two.cfg", emit=True, cfg_thorough="MC_Flips_two_thorough.cfg"), dict(module="MC_Flips", cfg="MC_Flips_thorough.cfg", tier="thorough", workers=4), dict(module="MC_Groups", emit=True, cfg_thorough="MC_Groups_thorough.cfg")],
  parts=[dict(driver="mesh_build.cc", traces=[T("Trace_Meshes", chunk=1500)])])
CHECKS["C31"] = dict(mc=[dict(module="MC_Colors", emit=True, cfg_thorough="MC_Colors_thorough.cfg", workers=4), dict(module="MC_Colors", cfg="MC_Colors_deep.cfg", emit=True, tier="thorough", workers=4)], parts=[dict(driver="color.cc", traces=[T("Trace_Colors", chunk=3000)])])
CHECKS["C24"] = dict(mc=[dict(module="MC_Hulls", emit=True, cfg_thorough="MC_Hulls_thorough.cfg", workers=4), dict(module="MC_Polylines", emit=True, cfg_thorough="MC_Polylines_thorough.cfg", workers=4), dict(module="MC_Tessellation", emit=True, cfg_thorough="MC_Tessellation_thorough.cfg", workers=4)],
  parts=[dict(driver="polylines.cc", extra=["compat/libtess2_impl.cc"], traces=[T("Trace_Polylines", chunk=3000)])], assumptions=["libtess2 is not installed: a stand-in (compat/libtess2_impl.cc) triangulates, so what is checked of tessellation is google/ink's use of it"])
CHECKS["C36"] = dict(mc=[dict(module="MC_Sweeps", emit=True, cfg_thorough="MC_Sweeps_thorough.cfg", workers=4)], parts=[dict(driver="sweeps.cc", traces=[T("Trace_Sweeps", chunk=120)])])
CHECKS["C37"] = dict(mc=[dict(module="MC_Natives", emit=True, cfg_thorough="MC_Natives_thorough.cfg", workers=4)],
  parts=[dict(driver="natives.cc", jni=True, sources=["ink/strokes/internal/jni/%s_jni.cc" % x for x in ("stroke_input_batch", "stroke", "in_progress_stroke")] + ["ink/geometry/internal/jni/%s_jni.cc" % x for x in ("partitioned_mesh", "mesh", "mesh_format")] +
    ["ink/brush/internal/jni/brush%s_jni.cc" % x for x in ("_behavior", "_coat", "_family", "_paint", "_tip", "")], traces=[T("Trace_Natives", chunk=2000)])])
