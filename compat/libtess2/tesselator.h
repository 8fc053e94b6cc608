#ifndef COMPAT_LIBTESS2_TESSELATOR_H_
#define COMPAT_LIBTESS2_TESSELATOR_H_
// Stand-in for libtess2 (not available offline): same C interface subset, exact enough for small inputs.
extern "C" {
enum TessWindingRule { TESS_WINDING_ODD, TESS_WINDING_NONZERO, TESS_WINDING_POSITIVE, TESS_WINDING_NEGATIVE, TESS_WINDING_ABS_GEQ_TWO };
enum TessElementType { TESS_POLYGONS, TESS_CONNECTED_POLYGONS, TESS_BOUNDARY_CONTOURS };
typedef float TESSreal;
typedef int TESSindex;
typedef struct TESStesselator TESStesselator;
typedef struct TESSalloc TESSalloc;
#define TESS_UNDEF (~(TESSindex)0)
TESStesselator* tessNewTess(TESSalloc* alloc);
void tessDeleteTess(TESStesselator* tess);
void tessAddContour(TESStesselator* tess, int size, const void* pointer, int stride, int count);
int tessTesselate(TESStesselator* tess, int winding_rule, int element_type, int poly_size, int vertex_size, const TESSreal* normal);
int tessGetVertexCount(TESStesselator* tess);
const TESSreal* tessGetVertices(TESStesselator* tess);
const TESSindex* tessGetVertexIndices(TESStesselator* tess);
int tessGetElementCount(TESStesselator* tess);
const TESSindex* tessGetElements(TESStesselator* tess);
}
#endif
