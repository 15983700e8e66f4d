#include "geo.h"
#include "accelerators/bvh.hpp"
#include "primitives/triangle.hpp"
#include "primitives/hit_point.hpp"
#include "textures/mask_boolean.hpp"
#include "settings.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <cfloat>
MaskBoolean::MaskBoolean() : map(NULL) {}
bool MaskBoolean::is_masked(const HitPoint*) const { return false; }
static uint32_t g_nt, g_w; static float g_tw, g_d0; 
#ifndef VC_NATIVE
/* The tree, as ghost facts about node i: cov(i): triangle w is in the subtree of node i; hgt(i): its height.
   valid(i) is the tree invariant established by Bvh::buildTree: it is supplied when node i is looked at. */
struct GNode { uint32_t cov, hgt; }; static GNode* g;
#define cov(i) (g[i].cov != 0)
#define hgt(i) (g[i].hgt)
static BvhNode* nd; static uint64_t N;
static const Ray* g_ray; static HitPoint* g_hp; static const MaskBoolean* g_mask; static const Triangle* g_tris;
static bool g_any; static uint32_t g_last; static float g_lastd;
static void valid(uint64_t i)
{
    vc_assume(i < N); const BvhNode& n = nd[i]; vc_assume(n.axis < 3); uint32_t off = n.offset, len = n.len;
    vc_assume(IMPLIES(len > 0, ALL(off < g_nt, len <= g_nt - off, IMPLIES(cov(i), AND(off <= g_w, g_w - off < len)))));
    bool in = AND(off < N, i + 1 < N); vc_assume(IMPLIES(len == 0, ALL(in, off > i)));
    uint64_t a = in ? i + 1 : 0, b = in ? off : 0; 
    vc_assume(IMPLIES(len == 0, ALL(hgt(a) < hgt(i), hgt(b) < hgt(i), IMPLIES(cov(i), OR(cov(a), cov(b))))));
}
extern "C" bool CONTRACT(_ZNK4AABB9intersectEPK3RayPK13RayPropertiesPfS6_)(const AABB* self, const Ray* r, const RayProperties*, float* a, float* b)
{
    const BvhNode* n = (const BvhNode*)self; uint64_t i = (uint64_t)(n - nd); vc_check(AND((const void*)&nd[i].bounding == (const void*)self, r == g_ray), "the box of a node is tested against the ray"); vc_check(i < N, "only nodes of the tree are visited"); valid(i);
    bool hit = vc_bool("boxhit"); float lo = vc_f32("dmin"), hi = vc_f32("dmax"); 
    // the triangle hit at tw lies in the boxes of all its ancestors (box/ray query: G01)
    vc_assume(IMPLIES(cov(i), ALL(hit, lo <= g_tw, g_tw <= hi)));
    if(!hit) return false;
    *a = lo; *b = hi; return true;
}
extern "C" bool CONTRACT(_ZNK8Triangle9intersectEPK3RayPfP8HitPointPK11MaskBoolean)(const Triangle* t, const Ray* r, float* d, HitPoint* h, const MaskBoolean* m)
{
    uint64_t k = (uint64_t)(t - g_tris); vc_check(k < g_nt, "only triangles of the mesh are tested"); vc_check(ALL(r == g_ray, h == g_hp, m == g_mask), "triangles get the caller's ray, hit and mask");
    bool hit = vc_bool("trihit"); float x = vc_f32("tridist"); vc_assume(IMPLIES(hit, x <= *d)); vc_assume(IMPLIES(AND(k == g_w, g_tw <= *d), AND(hit, x == g_tw)));
    if(!hit) return false;
    *d = x; h->index = 99; g_any = true; g_last = (uint32_t)k; g_lastd = x; return true;
}
static void common(bool found, const float* distance, const HitPoint* h)
{
    vc_inv(found == g_any, "a hit is reported exactly when a triangle was hit"); vc_inv(IMPLIES(found, AND(*distance == g_lastd, h->index == g_last)), "distance and index belong to the triangle hit last"); vc_inv(IMPLIES(!found, AND(*distance == g_d0, h->index == 77)), "no hit, no change"); vc_inv(*distance <= g_d0, "the distance only shrinks"); vc_inv(IMPLIES(found, g_last < g_nt), "the index is that of a triangle");
}
static bool stackcov(BvhNode** jobs, unsigned char top) { bool c = false; for(int s = 0; s < 32; s++) c = OR(c, AND(s < top, cov((uint64_t)(jobs[s] - nd)))); return c; }
static void stackok(BvhNode** jobs, unsigned char top) { bool c = top <= hgt(0); for(int s = 0; s < 32; s++) { uint64_t j = (uint64_t)(jobs[s] - nd); c = AND(c, IMPLIES(s < top, ALL(j < N, hgt(j) <= hgt(0), (uint32_t)s <= hgt(0) - hgt(j)))); } vc_inv(c, "the pending nodes are nodes of the tree, deeper ones on top"); }
extern "C" void vcloop__ZNK3Bvh9intersectEPK3RayPfP8HitPointPK11MaskBoolean__0(BvhNode** jobs, unsigned char jobs_stack_top, BvhNode* node, bool found, const float* distance, const HitPoint* h)
{
    vc_ptrarray(jobs, 8, 0, nd, sizeof(BvhNode), N); uint64_t i = (uint64_t)(node - nd);
    vc_inv(i < N, "the current node is a node of the tree"); vc_inv(AND(hgt(i) <= hgt(0), (uint32_t)jobs_stack_top <= hgt(0) - hgt(i)), "the current node is a node of the tree"); stackok(jobs, jobs_stack_top); common(found, distance, h);
    vc_inv(ANY(*distance <= g_tw, cov(i), stackcov(jobs, jobs_stack_top)), "the triangle is accounted for: beaten, below the current node or below a pending one");
}
extern "C" void vcloop__ZNK3Bvh9intersectEPK3RayPfP8HitPointPK11MaskBoolean__1(BvhNode** jobs, unsigned char jobs_stack_top, BvhNode* node, bool found, const float* distance, const HitPoint* h, int i)
{
    common(found, distance, h); vc_inv(AND(i >= 0, i <= node->len), "the triangles of a leaf"); uint32_t at = node->offset + (uint32_t)i;
    vc_inv(ANY(*distance <= g_tw, ALL(i < node->len, g_w >= at, g_w - at < (uint32_t)(node->len - i)), stackcov(jobs, jobs_stack_top)), "the triangle is accounted for: beaten, later in the leaf or below a pending node"); vc_variant(node->len - i);
}
#endif
HARNESS(bvh_hit)
{
#ifdef VC_NATIVE
    // bounded companion: the tree invariant assumed above is checked on real trees of up to 60 triangles
    uint32_t n = vc_u32in("n", 1, 60); Triangle* tr = (Triangle*)malloc(n * sizeof(Triangle)); uint32_t flat = vc_pick("flat", 6), dup = vc_pick("dup", 4); float c[180][3];
    for(uint32_t i = 0; i < 3 * n; i++) for(int j = 0; j < 3; j++) c[i][j] = flat == (uint32_t)j ? 0.25f : vc_f32in("c", -4, 4);
    Triangle* ref = (Triangle*)malloc(n * sizeof(Triangle)); Vertex* vs = (Vertex*)calloc(3 * n, sizeof(Vertex));
    for(uint32_t i = 0; i < n; i++) { uint32_t q = dup == 0 ? i % 3 : i; new (tr + i) Triangle(); new (ref + i) Triangle(); Vertex* v[3]; for(int k = 0; k < 3; k++) { v[k] = &vs[3 * i + k]; v[k]->p = Point3(c[3 * q + k][0], c[3 * q + k][1], c[3 * q + k][2]); v[k]->n = Normal(0, 0, 1); v[k]->t = Point2(k == 1, k == 2); } tr[i].a = ref[i].a = *v[0]; tr[i].b = ref[i].b = *v[1]; tr[i].c = ref[i].c = *v[2]; }
    Bvh b; b.buildTree(tr, (int)n);
    // every triangle survives, once
    for(uint32_t i = 0; i < n; i++) { int a = 0, e = 0; for(uint32_t j = 0; j < n; j++) { a += !memcmp((void*)&tr[j].a, (void*)&ref[i].a, sizeof(Vertex)) && !memcmp((void*)&tr[j].b, (void*)&ref[i].b, sizeof(Vertex)) && !memcmp((void*)&tr[j].c, (void*)&ref[i].c, sizeof(Vertex)); e += !memcmp((void*)&ref[j].a, (void*)&ref[i].a, sizeof(Vertex)) && !memcmp((void*)&ref[j].b, (void*)&ref[i].b, sizeof(Vertex)) && !memcmp((void*)&ref[j].c, (void*)&ref[i].c, sizeof(Vertex)); } vc_check(a == e, "building the hierarchy only reorders the triangles"); }
    // the tree invariant
    uint32_t st[128], hs[128], top = 0, next = 0; static uint8_t seen[64]; memset(seen, 0, sizeof seen); st[0] = 0; hs[0] = 0; top = 1;
    while(top) { uint32_t i = st[--top], dep = hs[top]; vc_check(i == next, "the nodes are laid out in depth-first order"); next++; const BvhNode& q = b.nodesList[i]; vc_check(dep <= 32, "the tree is not deeper than the traversal stack");
        if(q.len > 0) { for(uint32_t k = q.offset; k < q.offset + q.len; k++) { vc_check(k < n, "leaves name triangles of the mesh"); if(k >= n) return; vc_check(!seen[k], "a triangle is in one leaf"); seen[k] = 1; AABB t = tr[k].compute_AABB(); vc_check(q.bounding.inside(&t.bounds[0]) && q.bounding.inside(&t.bounds[1]), "the box of a leaf contains its triangles"); } }
        else { vc_check(q.axis < 3 && q.sibling > i + 1, "children follow their parent"); const AABB& l = b.nodesList[i + 1].bounding; const AABB& g = b.nodesList[q.sibling].bounding; for(int s = 0; s < 2; s++) vc_check(q.bounding.inside(&l.bounds[s]) && q.bounding.inside(&g.bounds[s]), "the box of a node contains the boxes of its children"); st[top] = q.sibling; hs[top++] = dep + 1; st[top] = i + 1; hs[top++] = dep + 1; } }
    for(uint32_t k = 0; k < n; k++) vc_check(seen[k], "every triangle is in a leaf");
    // the real traversal against all triangles one by one
    for(int t = 0; t < 8; t++) {
        Point3 o(vc_f32in("ox", -9, 9), vc_f32in("oy", -9, 9), vc_f32in("oz", -9, 9)); uint32_t k = vc_u32in("aim", 0, n - 1); float u = vc_f32in("u", 0.05f, 0.45f), v = vc_f32in("v", 0.05f, 0.45f); const Triangle& T = tr[k]; Vec3 d; for(int j = 0; j < 3; j++) d[j] = T.a.p[j] * (1 - u - v) + T.b.p[j] * u + T.c.p[j] * v - o[j];
        if(vc_pick("par", 4) == 0) d = Vec3(t == 0, t == 1, t > 1); if(len2(d) < 1e-2f) continue; d.normalize(); Ray r(o, d); MaskBoolean m; HitPoint h1, h2; h1.index = h2.index = 77; float d1 = FLT_MAX, d2 = FLT_MAX; bool f1 = b.intersect(&r, &d1, &h1, &m), f2 = false; float lim = 0; uint32_t best = 0;
        for(uint32_t i = 0; i < n; i++) { HitPoint hh; if(tr[i].intersect(&r, &d2, &hh, &m)) { f2 = true; best = i; } } (void)lim;
        if(f2) { const Triangle& B = tr[best]; bool inner = true; Point3 p = r.apply(d2); Vec3 e1 = B.b.p - B.a.p, e2 = B.c.p - B.a.p, x = p - B.a.p; float a = dot(e1, e1), bb = dot(e1, e2), cc = dot(e2, e2), f = dot(x, e1), g = dot(x, e2), D = a * cc - bb * bb; if(D < 1e-2f || fabsf(dot(cross(e1, e2), d)) < 1e-2f) continue; float bu = (f * cc - g * bb) / D, bv = (g * a - f * bb) / D; if(bu < 1e-2f || bv < 1e-2f || bu + bv > 0.99f) inner = false; if(!inner) continue; vc_check(f1 && d1 <= d2 * 1.0001f + 1e-4f, "no triangle is nearer than the reported hit"); }
        if(f1) { HitPoint hh; float d3 = FLT_MAX; vc_check(h1.index < n, "the reported index is that of a triangle"); vc_check(tr[h1.index].intersect(&r, &d3, &hh, &m) && d3 == d1, "the reported hit is the hit of the reported triangle"); } }
    for(uint32_t i = 0; i < n; i++) { (tr + i)->~Triangle(); (ref + i)->~Triangle(); } free(tr); free(ref); free(vs);
#else
    Bvh* b = (Bvh*)malloc(sizeof(Bvh)); HitPoint h; memset((void*)&h, 0, sizeof h); h.index = 77; MaskBoolean m; Point3 o = vpt("ox", "oy", "oz"); Vec3 d = vvec("dx", "dy", "dz");
    Ray r(o, d); g_d0 = vc_f32("far"); g_tw = vc_f32("tw"); vc_assume(g_tw < g_d0); float dist = g_d0;
    N = vc_u32in("nodes", 1, 1u << 24); g_nt = vc_u32in("ntri", 1, 1u << 24); g_w = vc_u32("w"); vc_assume(g_w < g_nt);
    nd = (BvhNode*)malloc((size_t)N * sizeof(BvhNode)); g = (GNode*)malloc((size_t)N * sizeof(GNode)); Triangle* tr = (Triangle*)malloc((size_t)g_nt * sizeof(Triangle)); g_tris = tr; Triangle proto; vc_protos(tr, g_nt, sizeof(Triangle), &proto); b->nodesList = nd; b->tris = tr;
    vc_assume(cov(0)); vc_assume(hgt(0) <= 32); g_ray = &r; g_hp = &h; g_mask = &m; g_any = false;
    bool res = b->Bvh::intersect(&r, &dist, &h, &m);
    vc_check(dist <= g_tw, "no triangle is nearer than the reported hit"); vc_check(res, "an existing hit is found");
    vc_check(ALL(res == g_any, dist == g_lastd, h.index == g_last, g_last < g_nt), "the reported hit is the hit of the reported triangle");
#endif
}
