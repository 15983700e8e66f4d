#include "geo.h"
#include "primitives/sphere.hpp"
#include "primitives/triangle.hpp"
#include "primitives/box.hpp"
#include "primitives/hit_point.hpp"
#include "textures/mask_boolean.hpp"
#include "settings.h"
#include "bounds.h"
// contract of the mask: any verdict for any candidate hit (the code is linked against this definition)
static int mk_n; static bool mk_v[4]; static float mk_x[4], mk_y[4], mk_z[4], mk_u[4], mk_w[4]; static Vec2 mk_du[4], mk_dv[4]; static bool mk_d[4];
MaskBoolean::MaskBoolean() : map(NULL) {}
bool MaskBoolean::is_masked(const HitPoint* h) const
{
    bool r = vc_bool("masked"); if(mk_n < 4) { mk_v[mk_n] = r; mk_x[mk_n] = h->point_h.x; mk_y[mk_n] = h->point_h.y; mk_z[mk_n] = h->point_h.z; mk_u[mk_n] = h->uv.x; mk_w[mk_n] = h->uv.y; mk_du[mk_n] = h->du; mk_dv[mk_n] = h->dv; mk_d[mk_n] = h->differentials; } mk_n++;
    return r;
}
static const float E = SELF_INTERSECT_ERROR;
static void blank(HitPoint* h) { h->point_h = Point3(7, 7, 7); h->normal_h = Normal(7, 7, 7); h->dpdu = Vec3(7, 7, 7); h->dpdv = Vec3(7, 7, 7); h->asset_h = NULL; h->index = 77; h->uv = Point2(7, 7); h->du = Vec2(0.25f, 0.5f); h->dv = Vec2(0.75f, 1.f); h->differentials = true; }
static bool untouched(HitPoint* h) { return ALL(h->point_h.x == 7, h->point_h.y == 7, h->point_h.z == 7, h->normal_h.x == 7, h->normal_h.y == 7, h->normal_h.z == 7, h->dpdu.x == 7, h->dpdv.x == 7, h->index == 77, h->uv.x == 7, h->uv.y == 7); }
static bool near3(float x, float y, float z, float a, float b, float c, float t) { return ALL(vc_feqtol(x, a, t), vc_feqtol(y, b, t), vc_feqtol(z, c, t)); }
static bool q_called; static float q_r1, q_r2;
#ifndef VC_NATIVE
/* contract of equation2, proved in U01 (util_quad); called with a > 0 */
extern "C" bool CONTRACT(_Z9equation2fffPfS_)(float a, float b, float c, float* x, float* y)
{
    vc_check(a != 0, "equation2 is called with a non-zero leading coefficient"); float D = b * b - 4 * a * c; bool ok = vc_split(D + 1e-4f >= 0); if(!ok) return false;
    float s = vc_f32("root1"), t = vc_f32("root2"); vc_assume(ALL(a * (s + t) == -b, IMPLIES(D > 0, ALL(a * s * s + b * s + c == 0, a * t * t + b * t + c == 0, a * s * t == c, s != t)), IMPLIES(D <= 0, s == t))); *x = s; *y = t; q_called = true; q_r1 = s; q_r2 = t; return true;
}
#endif
HARNESS(sphere_hit)
{
    mk_n = 0; Point3 o = vpt("ox", "oy", "oz"); Vec3 d = vvec("dx", "dy", "dz"); float a = len2(d); vc_assume(a > 0); vc_nat(a > 0.05f);
    Ray r(o, d); float far = vc_f32("far"); vc_assume(far >= E); float dist = far; HitPoint h; blank(&h); Sphere s; MaskBoolean m;
    float b = 2 * dot3(d, o), c = len2(o) - 1, D = b * b - 4 * a * c; vc_nat(D > 0.05f || D < -0.05f);
    // completeness: t is any crossing in range
    float t = vc_f32("t"); 
    if(!vc_symbolic()) { if(D > 0) t = vc_bool("which") ? (-b - sqrtf(D)) / (2 * a) : (-b + sqrtf(D)) / (2 * a); }
    bool wit = vc_symbolic() ? vc_split(ALL(t >= E, t <= far, D > 0, a * t * t + b * t + c == 0)) : (D > 0 && t > E * 1.05f && t < far * 0.99f);
    q_called = false; bool hit = s.intersect(&r, &dist, &h, &m);
    float px = o.x + dist * d.x, py = o.y + dist * d.y, pz = o.z + dist * d.z;
    if(hit)
    {
        vc_check(AND(dist >= E, dist <= far), "a reported hit lies in the allowed range");
        if(vc_split(D > 0)) vc_check(vc_feqtol(a * dist * dist + b * dist + c, 0, 5e-2f), "a reported hit lies on the sphere");
        vc_check(OR(AND(px == 0, py == 0), near3(h.point_h.x, h.point_h.y, h.point_h.z, px, py, pz, 2e-2f)), "the hit point is the point of the ray at the reported distance");
        vc_check(near3(h.normal_h.x, h.normal_h.y, h.normal_h.z, px, py, pz, 2e-2f), "the normal is the radius at the hit point");
        vc_check(h.index == 0, "a sphere has one face");
        vc_check(AND(mk_n >= 1, mk_n <= 2), "the mask is consulted"); int k = mk_n - 1; vc_check(!mk_v[k], "a masked hit is never reported");
        vc_check(ALL(mk_x[k] == h.point_h.x, mk_y[k] == h.point_h.y, mk_z[k] == h.point_h.z, mk_u[k] == h.uv.x, mk_w[k] == h.uv.y), "the mask sees the hit it decides on");
        vc_check(OR(AND(px == 0, py == 0), vc_feqtol(h.dpdu.x * px + h.dpdu.y * py, 0, 1e-1f)), "the surface derivative in u is tangent");
    }
    else { vc_check(AND(dist == far, untouched(&h)), "a miss leaves the outputs untouched"); }
    if(wit)
    {
        if(q_called) { vc_lemma(a * (t - q_r1) * (t - q_r2) == 0, "factored"); vc_lemma(OR(t == q_r1, t == q_r2), "a crossing is one of the roots"); vc_split(t == q_r1); }
        float qx = o.x + t * d.x, qy = o.y + t * d.y, qz = o.z + t * d.z; 
        bool masked = false; for(int i = 0; i < 2; i++) if(i < mk_n) masked = OR(masked, ALL(mk_v[i], OR(AND(qx == 0, qy == 0), vc_feqtol(mk_x[i], qx, 2e-2f)), vc_feqtol(mk_y[i], qy, 2e-2f), vc_feqtol(mk_z[i], qz, 2e-2f)));
        vc_check(OR(AND(hit, vc_fletol(dist, t, 1e-2f)), masked), "the nearest unmasked crossing is found");
    }
}
HARNESS(tri_hit)
{
    mk_n = 0; Point3 o = vpt("ox", "oy", "oz"); Vec3 d = vvec("dx", "dy", "dz");
    Vertex v[3]; v[0].p = vpt("ax", "ay", "az"); v[1].p = vpt("bx", "by", "bz"); v[2].p = vpt("cx", "cy", "cz");
    for(int i = 0; i < 3; i++) { v[i].n = vnor("nx", "ny", "nz"); v[i].t.x = vc_f32("tu"); v[i].t.y = vc_f32("tv"); }
    Triangle T(v[0], v[1], v[2]); Ray r(o, d); float far = vc_f32("far"); vc_assume(far >= E); float dist = far; HitPoint h; blank(&h); MaskBoolean m;
    Vec3 ba = v[1].p - v[0].p, ca = v[2].p - v[0].p; float det = dot(d.cross(ca), ba); vc_nat(det > 0.05f || det < -0.05f); vc_nat(det < 1000 && det > -1000);
    float du1 = v[0].t.x - v[2].t.x, du2 = v[1].t.x - v[2].t.x, dv1 = v[0].t.y - v[2].t.y, dv2 = v[1].t.y - v[2].t.y; float ud = du1 * dv2 - du2 * dv1; vc_assume(ud != 0); vc_nat(ud > 0.05f || ud < -0.05f);
    // completeness witness: the ray meets the triangle at barycentric (u,v) and distance t
    float u = vc_f32("u"), w = vc_f32("v"), t = vc_f32("t"); bool wit = vc_bool("witness");
    if(wit) { vc_assume(ALL(u >= 0, w >= 0, u + w <= 1, t >= E, t <= far)); vc_nat(u > 0.01f && w > 0.01f && u + w < 0.99f && t > E * 1.1f && t < far * 0.95f);
        if(vc_symbolic()) vc_assume(ALL(det != 0, o.x + t * d.x == v[0].p.x + u * ba.x + w * ca.x, o.y + t * d.y == v[0].p.y + u * ba.y + w * ca.y, o.z + t * d.z == v[0].p.z + u * ba.z + w * ca.z));
        else { r = Ray(Point3(v[0].p.x + u * ba.x + w * ca.x - t * d.x, v[0].p.y + u * ba.y + w * ca.y - t * d.y, v[0].p.z + u * ba.z + w * ca.z - t * d.z), d); o = r.origin; } }
    bool hit = T.intersect(&r, &dist, &h, &m);
    if(wit) { vc_check(AND(mk_n == 1, hit == !mk_v[0]), "a crossing inside the triangle and in range is a hit unless masked"); }
    if(hit)
    {
        vc_check(AND(dist >= E, dist <= far), "a reported hit lies in the allowed range");
        float px = o.x + dist * d.x, py = o.y + dist * d.y, pz = o.z + dist * d.z;
        vc_check(near3(h.point_h.x, h.point_h.y, h.point_h.z, px, py, pz, 1e-2f), "the hit point is the point of the ray at the reported distance");
        vc_check(!mk_v[0], "a masked hit is never reported");
        // barycentric coordinates recovered by Cramer's rule
        Vec3 tv = o - v[0].p; float i = 1.f / det, B = dot(d.cross(ca), tv) * i, C = dot(d, tv.cross(ba)) * i, A = 1 - B - C; float tol = 2e-2f;
        vc_check(ALL(vc_fletol(0, A, tol), vc_fletol(0, B, tol), vc_fletol(0, C, tol)), "a reported hit lies inside the triangle");
        vc_check(ALL(vc_feqtol(px, v[0].p.x * A + v[1].p.x * B + v[2].p.x * C, tol), vc_feqtol(py, v[0].p.y * A + v[1].p.y * B + v[2].p.y * C, tol), vc_feqtol(pz, v[0].p.z * A + v[1].p.z * B + v[2].p.z * C, tol)), "a reported hit lies in the triangle's plane");
        vc_check(ALL(vc_feqtol(h.normal_h.x, v[0].n.x * A + v[1].n.x * B + v[2].n.x * C, tol), vc_feqtol(h.normal_h.y, v[0].n.y * A + v[1].n.y * B + v[2].n.y * C, tol), vc_feqtol(h.normal_h.z, v[0].n.z * A + v[1].n.z * B + v[2].n.z * C, tol)), "the shading normal interpolates the vertex normals");
        vc_check(ALL(vc_feqtol(h.uv.x, v[0].t.x * A + v[1].t.x * B + v[2].t.x * C, tol), vc_feqtol(h.uv.y, v[0].t.y * A + v[1].t.y * B + v[2].t.y * C, tol)), "texture coordinates interpolate those of the vertices");
        vc_check(ALL(mk_u[0] == h.uv.x, mk_w[0] == h.uv.y, mk_du[0].x == 0.25f, mk_du[0].y == 0.5f, mk_dv[0].x == 0.75f, mk_dv[0].y == 1.f, mk_d[0]), "the mask sees the coordinates and differentials of the hit");
        vc_check(ALL(vc_feqtol(h.dpdu.x * du1 + h.dpdv.x * dv1, v[0].p.x - v[2].p.x, 5e-2f), vc_feqtol(h.dpdu.y * du1 + h.dpdv.y * dv1, v[0].p.y - v[2].p.y, 5e-2f), vc_feqtol(h.dpdu.z * du2 + h.dpdv.z * dv2, v[1].p.z - v[2].p.z, 5e-2f), vc_feqtol(h.dpdu.x * du2 + h.dpdv.x * dv2, v[1].p.x - v[2].p.x, 5e-2f)), "surface derivatives reproduce the triangle's edges");
    }
    else { vc_check(AND(dist == far, untouched(&h)), "a miss leaves the outputs untouched"); }
}
HARNESS(box_hit)
{
    mk_n = 0; Point3 o = vpt("ox", "oy", "oz"); Vec3 d = vvec("dx", "dy", "dz"); vc_assume(ALL(d.x != 0, d.y != 0, d.z != 0)); for(int i = 0; i < 3; i++) vc_nat(d[i] > 0.02f || d[i] < -0.02f);
    Ray r(o, d); float far = vc_f32("far"); vc_assume(far >= E); float dist = far; HitPoint h; blank(&h); Box B; MaskBoolean m;
    bool hit = B.intersect(&r, &dist, &h, &m); float tol = 1e-3f;
    float t = vc_f32("t"); float q[3] = {o.x + t * d.x, o.y + t * d.y, o.z + t * d.z};
    if(hit)
    {
        vc_check(AND(dist >= E, dist <= far), "a reported hit lies in the allowed range"); float p[3] = {o.x + dist * d.x, o.y + dist * d.y, o.z + dist * d.z};
        vc_check(near3(h.point_h.x, h.point_h.y, h.point_h.z, p[0], p[1], p[2], tol), "the hit point is the point of the ray at the reported distance");
        vc_check(ALL(vc_fletol(0, p[0], tol), vc_fletol(p[0], 1, tol), vc_fletol(0, p[1], tol), vc_fletol(p[1], 1, tol), vc_fletol(0, p[2], tol), vc_fletol(p[2], 1, tol)), "a reported hit lies on the box");
        const Normal& n = h.normal_h; bool unit = false; for(int i = 0; i < 3; i++) unit = OR(unit, ALL(OR(n[i] == 1, n[i] == -1), n[(i + 1) % 3] == 0, n[(i + 2) % 3] == 0));
        vc_check(unit, "the normal is a unit axis");
        for(int i = 0; i < 3; i++) { vc_check(IMPLIES(n[i] > 0, vc_feqtol(p[i], 1, tol)), "the normal is the outward normal of the upper face that was hit"); vc_check(IMPLIES(n[i] < 0, vc_feqtol(p[i], 0, tol)), "the normal is the outward normal of the lower face that was hit"); }
        vc_check(ALL(vc_feqtol(dot3(h.dpdu, h.normal_h), 0, tol), len2(h.dpdu) == 1), "the surface derivative is a unit tangent");
        vc_check(!mk_v[0], "a masked hit is never reported");
        vc_assume(AND(t > E, t < dist)); vc_nat(t > E * 1.1f && t < dist * 0.99f); bool bnd = false; for(int i = 0; i < 3; i++) bnd = OR(bnd, OR(q[i] == 0, q[i] == 1)); bool in = true; for(int i = 0; i < 3; i++) in = ALL(in, q[i] >= 0, q[i] <= 1);
        vc_check(!AND(in, bnd), "no face is crossed before the reported hit");
    }
    else
    {
        vc_check(AND(dist == far, untouched(&h)), "a miss leaves the outputs untouched");
        vc_assume(AND(t > E, t < far)); vc_nat(t > E * 1.1f && t < far * 0.95f); 
        bool in = true; for(int i = 0; i < 3; i++) in = ALL(in, q[i] > (vc_symbolic() ? 0 : 0.001f), q[i] < (vc_symbolic() ? 1 : 0.999f));
        // a ray that is inside the box at some admissible t and has left it at the far limit crosses a face in range
        float e[3] = {o.x + far * d.x, o.y + far * d.y, o.z + far * d.z}; bool out = false; for(int i = 0; i < 3; i++) out = ANY(out, e[i] < -0.001f, e[i] > 1.001f);
        vc_check(OR(mk_n == 1, !AND(in, out)), "a crossing in range is a hit unless masked");
        vc_check(IMPLIES(mk_n == 1, mk_v[0]), "only masked hits are dropped");
    }
}
static bool inbox(const AABB& b, const Point3& p, float e) { return ALL(vc_fletol(b.bounds[0].x, p.x, e), vc_fletol(p.x, b.bounds[1].x, e), vc_fletol(b.bounds[0].y, p.y, e), vc_fletol(p.y, b.bounds[1].y, e), vc_fletol(b.bounds[0].z, p.z, e), vc_fletol(p.z, b.bounds[1].z, e)); }
HARNESS(prim_bounds)
{
    Matrix4 M = vmat(); Point3 p = vpt("px", "py", "pz"); uint32_t k = vc_pick("shape", 3); 
    if(k == 0)
    {
        if(vc_symbolic()) vc_assume(len2(p) == 1); else { float l = sqrtf(len2(p)); vc_assume(l > 0.01f); p = Point3(p.x / l, p.y / l, p.z / l); }
        vc_lemma(ALL(p.x <= 1, p.x >= -1, p.y <= 1, p.y >= -1, p.z <= 1, p.z >= -1), "points of the unit sphere lie in the unit cube");
        Sphere s; vc_check(inbox(s.compute_AABB(), p, 1e-4f), "the sphere lies in its box"); inworld(s.compute_AABB(&M), M, p, Point3(-1, -1, -1), Point3(1, 1, 1), "the transformed sphere lies in its world box");
    }
    else if(k == 1)
    {
        vc_assume(ALL(p.x >= 0, p.x <= 1, p.y >= 0, p.y <= 1, p.z >= 0, p.z <= 1)); Box b;
        vc_check(inbox(b.compute_AABB(), p, 1e-4f), "the box lies in its box"); inworld(b.compute_AABB(&M), M, p, Point3(0, 0, 0), Point3(1, 1, 1), "the transformed box lies in its world box");
    }
    else
    {
        Triangle T; T.a.p = vpt("ax", "ay", "az"); T.b.p = vpt("bx", "by", "bz"); T.c.p = vpt("cx", "cy", "cz");
        float u = vc_f32("u"), v = vc_f32("v"); vc_assume(ALL(u >= 0, v >= 0, u + v <= 1)); float w = 1 - u - v;
        Point3 q(w * T.a.p.x + u * T.b.p.x + v * T.c.p.x, w * T.a.p.y + u * T.b.p.y + v * T.c.p.y, w * T.a.p.z + u * T.b.p.z + v * T.c.p.z);
        vc_check(inbox(T.compute_AABB(), q, 1e-2f), "the triangle lies in its box");
        AABB B = T.compute_AABB(&M); vc_check(ALL(inbox(B, M * T.a.p, 1e-3f), inbox(B, M * T.b.p, 1e-3f), inbox(B, M * T.c.p, 1e-3f)), "the transformed triangle's corners lie in its world box");
        bool tight = true; AABB C = T.compute_AABB(); const Point3* P[3] = {&T.a.p, &T.b.p, &T.c.p}; for(int i = 0; i < 3; i++) for(int s = 0; s < 2; s++) { float x = C.bounds[s][i]; tight = AND(tight, ANY(x == (*P[0])[i], x == (*P[1])[i], x == (*P[2])[i])); } vc_check(tight, "the triangle's box is tight");
    }
}
#ifndef VC_NATIVE
/* contract of Normal::normalize, proved in G02 */
extern "C" Normal* CONTRACT(_ZN6Normal9normalizeEv)(Normal* self)
{
    float l = len2(*self); vc_check(l > 0, "normalize is called on a non-zero normal");
    float s = vc_f32("scale"); vc_assume(s > 0); vc_assume(AND(s * s * l > 0.99999f, s * s * l < 1.00001f));
    self->x *= s; self->y *= s; self->z *= s; vc_assume(AND(len2(*self) > 0.99999f, len2(*self) < 1.00001f));
    return self;
}
#endif
HARNESS(prim_sample)
{
    float r0 = vc_f32in("r0", 0, 1), r1 = vc_f32in("r1", 0, 1); Point3 p; Normal n; uint32_t k = vc_pick("shape", 3);
    if(k == 0)
    {
        Sphere s; s.sample_point(r0, r1, NULL, &p, &n); vc_check(vc_feqtol(len2(p), 1, 1e-3f), "sphere samples lie on the sphere"); vc_check(ALL(n.x == p.x, n.y == p.y, n.z == p.z), "the sampled normal is the radius");
        vc_check(vc_feqtol(p.z, 1 - 2 * r0, 1e-4f), "the height of a sphere sample is uniform (equal area)"); vc_check(vc_feqtol(s.surface(), 12.566371f, 1e-4f), "unit sphere area");
    }
    else if(k == 1)
    {
        Triangle T; T.a.p = vpt("ax", "ay", "az"); T.b.p = vpt("bx", "by", "bz"); T.c.p = vpt("cx", "cy", "cz");
        Vec3 ba = T.b.p - T.a.p, ca = T.c.p - T.a.p, c = cross(ba, ca); float l2 = len2(c); vc_assume(l2 > 0); vc_nat(l2 > 0.01f);
        T.sample_point(r0, r1, NULL, &p, &n);
        float sq = sqrtf(r0), u = 1 - sq, v = r1 * sq, w = 1 - u - v; vc_check(ALL(vc_fletol(0, u, 1e-5f), vc_fletol(0, v, 1e-5f), vc_fletol(0, w, 1e-5f)), "barycentric weights are convex");
        vc_check(near3(p.x, p.y, p.z, u * T.a.p.x + v * T.b.p.x + w * T.c.p.x, u * T.a.p.y + v * T.b.p.y + w * T.c.p.y, u * T.a.p.z + v * T.b.p.z + w * T.c.p.z, 1e-3f), "triangle samples are convex combinations of the corners with uniform area density");
        vc_check(near1(len2(n)), "the sampled normal has unit length"); vc_check(dot3(n, c) > 0, "the sampled normal is on the outer side"); vc_check(ALL(vc_feqtol(dot3(n, ba), 0, 1e-2f), vc_feqtol(dot3(n, ca), 0, 1e-2f)), "the sampled normal is perpendicular to the triangle");
        float s = T.surface(); vc_check(AND(s >= 0, vc_feqtol(4 * s * s, l2, 1e-2f)), "triangle area");
    }
    else
    {
        float a[6]; a[0] = vc_f32("a0"); for(int i = 1; i < 6; i++) { float f = vc_f32("ai"); vc_assume(f > 0); a[i] = a[i - 1] + f; } vc_assume(a[0] > 0); vc_nat(a[0] > 0.01f); Box b; b.sample_point(r0, r1, a, &p, &n);
        int ax = -1; for(int i = 0; i < 3; i++) if(n[i] != 0) ax = i; vc_check(ax >= 0, "the sampled normal is not zero"); if(ax < 0) return;
        vc_check(vc_feqtol(len2(n), 1, 1e-5f), "the sampled normal is a unit axis"); vc_check(p[ax] == (n[ax] > 0 ? 1.f : 0.f), "the sample lies on the face of its normal");
        bool in = true; for(int i = 0; i < 3; i++) in = ALL(in, vc_fletol(0, p[i], 1e-3f), vc_fletol(p[i], 1, 1e-3f)); vc_check(in, "box samples lie on the box");
        float e = r0 * a[5]; int f = e < a[0] ? 0 : e < a[1] ? 1 : e < a[2] ? 2 : e < a[3] ? 3 : e < a[4] ? 4 : 5; static const int AX[6] = {2, 2, 1, 1, 0, 0};
        vc_check(AX[f] == ax, "faces are chosen in proportion to the cumulative densities");
    }
}
