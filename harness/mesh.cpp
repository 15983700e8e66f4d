#include "bounds.h"
#include "primitives/mesh.hpp"
#include "primitives/hit_point.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
#ifndef VC_NATIVE
// contract of the callee: which triangle was asked for a sample, with which coordinates
static const Triangle* g_tri; static float g_r0, g_r1; static int g_calls; static Point3* g_p; static Normal* g_n;
extern "C" void CONTRACT(_ZNK8Triangle12sample_pointEffPKfP6Point3P6Normal)(const Triangle* t, float r0, float r1, const float*, Point3* p, Normal* n) { g_tri = t; g_r0 = r0; g_r1 = r1; g_calls++; g_p = p; g_n = n; }
// the search: the sample stays between the cumulative areas at the two ends
extern "C" void vcloop__ZNK4Mesh12sample_pointEffPKfP6Point3P6Normal__0(int start, int end, float extSample, const float* densities, const Mesh* self)
{
    vc_inv(ALL(start >= 0, start < end, end < (int)self->count), "search bounds ordered and in range");
    vc_inv(AND(densities[start] <= extSample, extSample < densities[end]), "the sample lies between the areas at the search bounds");
    vc_variant((int64_t)end - start);
}
#endif
static uint32_t cnt() { return vc_symbolic() ? vc_u32in("n", 1, 1u << 24) : vc_u32in("n", 1, 40); }
HARNESS(mesh_pick)
{
    uint32_t n = cnt(); float* d = (float*)malloc(n * sizeof(float)); Mesh* m = (Mesh*)malloc(sizeof(Mesh)); m->count = n; m->tris = (Triangle*)malloc(n * sizeof(Triangle));
    if(!vc_symbolic()) { float s = 0; for(uint32_t i = 0; i < n; i++) { float a = vc_f32("area"); s += a < 0 ? -a : a; d[i] = s; new (m->tris + i) Triangle(); m->tris[i].a.p = m->tris[i].b.p = m->tris[i].c.p = Point3(0, 0, i); m->tris[i].b.p.x = 1; m->tris[i].c.p.y = 1; } }
    Triangle proto; vc_protos(m->tris, n, sizeof(Triangle), &proto);
    vc_assume(d[0] >= 0); if(n > 1) vc_assume(AND(d[n - 2] >= 0, d[n - 2] <= d[n - 1])); vc_assume(d[n - 1] > 0);
    float r0 = vc_f32in("r0", 0, 1), r1 = vc_f32in("r1", 0, 1); vc_assume(r0 < 1);
    Point3 p; Normal nn; m->Mesh::sample_point(r0, r1, d, &p, &nn);
    float ext = r0 * d[n - 1]; uint32_t c;
#ifndef VC_NATIVE
    vc_check(g_calls == 1, "one triangle is sampled");
    vc_check(ALL(g_tri >= m->tris, g_p == &p, g_n == &nn, g_r1 == r1), "the triangle belongs to the mesh and gets the caller's outputs");
    c = (uint32_t)(g_tri - m->tris);
#else
    c = (uint32_t)(p.z + 0.5f);
#endif
    vc_check(c < n, "the sampled triangle exists"); if(c >= n) return;
    float lo = 0; if(vc_split(c > 0)) lo = d[c - 1];
    vc_check(AND(vc_fletol(lo, ext, 1e-5f), vc_fletol(ext, d[c], 1e-5f)), "a triangle is chosen with probability proportional to its area");
#ifndef VC_NATIVE
    vc_check(g_r0 * (d[c] - lo) == ext - lo, "the position inside the triangle reuses the remaining randomness");
#endif
}
/* ---- areas: contract of the triangle callee is an arbitrary non-negative area per triangle; g_pre is the ghost prefix sum */
#ifndef VC_NATIVE
static const Triangle* g_base; static float* g_area; static float* g_pre;
static float area_of(const Triangle* t) { int64_t i = t - g_base; vc_assume(g_area[i] >= 0); vc_assume(g_pre[i + 1] == g_pre[i] + g_area[i]); return g_area[i]; }
extern "C" float CONTRACT(_ZNK8Triangle7surfaceEv)(const Triangle* t) { return area_of(t); }
extern "C" float CONTRACT(_ZNK8Triangle7surfaceEPK7Matrix4)(const Triangle* t, const Matrix4*) { return area_of(t); }
static uint32_t g_k;
extern "C" void vcloop__ZNK4Mesh7surfaceEv__0(const Mesh* self, float totalArea, unsigned int i)
{
    vc_inv(i <= self->count, "every triangle once"); vc_inv(totalArea == g_pre[i], "the area so far"); vc_inv(totalArea >= 0, "areas accumulate"); vc_variant((int64_t)self->count - i);
}
extern "C" void vcloop__ZNK4Mesh7surfaceEPK7Matrix4__0(const Mesh* self, float totalArea, unsigned int i)
{
    vc_inv(i <= self->count, "every triangle once"); vc_inv(totalArea == g_pre[i], "the area so far"); vc_inv(totalArea >= 0, "areas accumulate"); vc_variant((int64_t)self->count - i);
}
extern "C" void vcloop__ZNK4Mesh19get_densities_arrayEPK7Matrix4Pf__0(const Mesh* self, float* array, float sum, unsigned int i)
{
    vc_inv(i <= self->count, "every triangle once"); vc_inv(sum == g_pre[i], "the area so far"); vc_inv(IMPLIES(g_k < i, array[g_k] == g_pre[g_k + 1]), "entry k is the area of triangles 0..k"); vc_variant((int64_t)self->count - i);
}
#endif
HARNESS(mesh_area)
{
    uint32_t n = cnt(); float* d = (float*)malloc(n * sizeof(float)); Mesh* m = (Mesh*)malloc(sizeof(Mesh)); m->count = n; m->tris = (Triangle*)malloc(n * sizeof(Triangle)); Matrix4 M; M.set_identity();
    float pre[42]; uint32_t k = vc_u32("k"); vc_assume(k < n);
    if(!vc_symbolic()) { pre[0] = 0; for(uint32_t i = 0; i < n; i++) { float a = vc_f32in("area", 0, 4); pre[i + 1] = pre[i] + a; new (m->tris + i) Triangle(); m->tris[i].a.p = m->tris[i].b.p = m->tris[i].c.p = Point3(0, 0, i); m->tris[i].b.p.x = 2 * a; m->tris[i].c.p.y = 1; } }
    Triangle proto; vc_protos(m->tris, n, sizeof(Triangle), &proto);
    float tot, part;
#ifndef VC_NATIVE
    g_base = m->tris; g_k = k; g_area = (float*)malloc((size_t)n * sizeof(float)); g_pre = (float*)malloc(((size_t)n + 1) * sizeof(float)); vc_assume(g_pre[0] == 0); tot = g_pre[n]; part = g_pre[k + 1];
#else
    tot = pre[n]; part = pre[k + 1];
#endif
    vc_check(vc_feqtol(m->Mesh::surface(), tot, 1e-4f), "the area of a mesh is the sum of its triangles' areas");
    vc_check(vc_feqtol(m->Mesh::surface(&M), tot, 1e-4f), "the world area of a mesh is the sum of its triangles' areas");
    m->Mesh::get_densities_array(&M, d); vc_check(vc_feqtol(d[k], part, 1e-4f), "entry k of the density table is the area of triangles 0..k");
}
/* ---- bounds: contract of the triangle callee is an arbitrary box per triangle */
static uint32_t b_k; static bool b_n; static float b_lim[6];
#ifndef VC_NATIVE
struct Box6 { float c[6]; }; static const Triangle* b_base; static Box6* b_box;
extern "C" void CONTRACT(_ZNK8Triangle12compute_AABBEv)(AABB* out, const Triangle* t)
{
    int64_t i = t - b_base; for(int j = 0; j < 3; j++) { vc_assume(ALL(b_box[i].c[j] <= b_box[i].c[3 + j], b_box[i].c[j] >= b_lim[j], b_box[i].c[3 + j] <= b_lim[3 + j])); out->bounds[0][j] = b_box[i].c[j]; out->bounds[1][j] = b_box[i].c[3 + j]; }
}
extern "C" void CONTRACT(_ZN3Bvh9buildTreeEP8Trianglei)(void*, Triangle* t, int n) { vc_check(AND(t == b_base, n > 0), "the hierarchy is built over all triangles"); }
extern "C" void vcloop__ZN4Mesh8finalizeEv__0(Mesh* self, unsigned int i)
{
    vc_inv(i <= self->count, "every triangle once"); 
    for(int j = 0; j < 3; j++) {
        vc_inv(IMPLIES(b_k < i, AND(self->aabb.bounds[0][j] <= b_box[b_k].c[j], self->aabb.bounds[1][j] >= b_box[b_k].c[3 + j])), "triangle k is inside");
        vc_inv(IMPLIES(i == 0, AND(self->aabb.bounds[0][j] >= b_lim[3 + j], self->aabb.bounds[1][j] <= b_lim[j])), "starts empty");
        vc_inv(IMPLIES(i > 0, AND(self->aabb.bounds[0][j] >= b_lim[j], self->aabb.bounds[1][j] <= b_lim[3 + j])), "the box is not larger than needed"); }
    vc_variant((int64_t)self->count - i);
}
#endif
HARNESS(mesh_box)
{
    uint32_t n = cnt(); uint32_t k = vc_u32("k"); vc_assume(k < n); for(int j = 0; j < 3; j++) { b_lim[j] = vc_f32("lo"); b_lim[3 + j] = vc_f32("hi"); vc_assume(b_lim[j] <= b_lim[3 + j]); }
    Mesh* m = new Mesh(1); AABB box; uint32_t nn = n;
#ifndef VC_NATIVE
    nn = m->count = m->alloc = n; m->tris = (Triangle*)malloc((size_t)n * sizeof(Triangle)); b_base = m->tris; b_box = (Box6*)malloc((size_t)n * sizeof(Box6)); b_k = k; 
    Triangle proto; vc_protos(m->tris, n, sizeof(Triangle), &proto);
#else
    for(uint32_t i = 0; i < n; i++) { Point3 v[3]; for(int q = 0; q < 3; q++) for(int j = 0; j < 3; j++) v[q][j] = vc_f32in("c", 0, 1) * (b_lim[3 + j] - b_lim[j]) * 0.999f + b_lim[j]; m->add_triangle(v[0], v[1], v[2], Normal(0, 0, 1)); }
    nn = m->count; if(k >= nn) k = 0; float c[6]; { const Triangle& t = m->tris[k]; AABB q = t.compute_AABB(); for(int j = 0; j < 3; j++) { c[j] = q.bounds[0][j]; c[3 + j] = q.bounds[1][j]; } } const float* kb = c;
    vc_check(nn == (n < _MAX_TRIS_ ? n : _MAX_TRIS_), "every added triangle is kept up to the limit");
#endif
    m->finalize(); box = m->Mesh::compute_AABB();
#ifndef VC_NATIVE
    float kb[6]; for(int j = 0; j < 6; j++) kb[j] = b_box[k].c[j];
    vc_check(ALL(m->count == n, m->tris == b_base), "finalising keeps the triangles");
#else
    vc_check(m->count == nn, "finalising keeps the triangles");
#endif
    for(int j = 0; j < 3; j++) { vc_check(AND(box.bounds[0][j] <= kb[j], box.bounds[1][j] >= kb[3 + j]), "every triangle lies inside the mesh's box"); vc_check(AND(box.bounds[0][j] >= b_lim[j] - (vc_symbolic() ? 0 : 1e-3f * fabsf(b_lim[j])), box.bounds[1][j] <= b_lim[3 + j] + (vc_symbolic() ? 0 : 1e-3f * fabsf(b_lim[3 + j]))), "the mesh's box is the smallest such box"); }
}
HARNESS(mesh_world)
{
    Matrix4 M = vmat(); Mesh* m = new Mesh(1); Point3 p = vpt("px", "py", "pz"), l = vpt("lx", "ly", "lz"), h = vpt("hx", "hy", "hz"); m->aabb = AABB(l, h);
    vc_assume(ALL(l.x <= p.x, p.x <= h.x, l.y <= p.y, p.y <= h.y, l.z <= p.z, p.z <= h.z));
    inworld(m->Mesh::compute_AABB(&M), M, p, l, h, "the transformed mesh lies in its world box");
}
