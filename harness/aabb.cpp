#include "vc.h"
#include "geometry/AABB.hpp"
#include "geometry/ray.hpp"
static Point3 pt(const char* x, const char* y, const char* z) { float a = vc_f32(x), b = vc_f32(y), c = vc_f32(z); return Point3(a, b, c); }
static AABB box(const char* n[6])
{
    Point3 lo = pt(n[0], n[1], n[2]); Point3 hi = pt(n[3], n[4], n[5]);
    vc_assume(lo.x <= hi.x); vc_assume(lo.y <= hi.y); vc_assume(lo.z <= hi.z);
    return AABB(lo, hi);
}
static const char* A[6] = {"a0x", "a0y", "a0z", "a1x", "a1y", "a1z"};
static const char* B[6] = {"b0x", "b0y", "b0z", "b1x", "b1y", "b1z"};
static float fmn(float a, float b) { return a < b ? a : b; }
static float fmx(float a, float b) { return a > b ? a : b; }
static bool isunion(const AABB& r, const AABB& a, const AABB& b)
{
    return ALL(r.bounds[0].x == fmn(a.bounds[0].x, b.bounds[0].x), r.bounds[0].y == fmn(a.bounds[0].y, b.bounds[0].y), r.bounds[0].z == fmn(a.bounds[0].z, b.bounds[0].z),
               r.bounds[1].x == fmx(a.bounds[1].x, b.bounds[1].x), r.bounds[1].y == fmx(a.bounds[1].y, b.bounds[1].y), r.bounds[1].z == fmx(a.bounds[1].z, b.bounds[1].z));
}
static bool in(const AABB& b, const Point3& p)
{
    return ALL(p.x >= b.bounds[0].x, p.x <= b.bounds[1].x, p.y >= b.bounds[0].y, p.y <= b.bounds[1].y, p.z >= b.bounds[0].z, p.z <= b.bounds[1].z);
}
static bool same(const AABB& a, const AABB& b) { return ALL(a.bounds[0].x == b.bounds[0].x, a.bounds[0].y == b.bounds[0].y, a.bounds[0].z == b.bounds[0].z, a.bounds[1].x == b.bounds[1].x, a.bounds[1].y == b.bounds[1].y, a.bounds[1].z == b.bounds[1].z); }
HARNESS(aabb_union)
{
    AABB a = box(A), b = box(B); AABB a0 = a, b0 = b;
    AABB e; 
    uint32_t k = vc_pick("op", 5);
    AABB r;
    if(k == 0) { a.engulf(&b); r = a; }
    else if(k == 1) { a.engulf(b); r = a; }
    else if(k == 2) { r = a + b; vc_check(same(a, a0), "a+b leaves a unchanged"); }
    else if(k == 3) { a += b; r = a; }
    else { e.engulf(&b); vc_check(same(e, b), "union of the empty box and b is b"); r = a0; r.engulf(&b); }
    vc_check(isunion(r, a0, b0), "union of two boxes is the smallest box containing both");
    vc_check(same(b, b0), "argument unchanged");
}
HARNESS(aabb_point)
{
    AABB a = box(A); AABB a0 = a; Point3 p = pt("px", "py", "pz"), p0 = p;
    AABB pb(p);
    uint32_t k = vc_pick("op", 4);
    AABB r;
    if(k == 0) { a.engulf(&p); r = a; }
    else if(k == 1) { a.engulf(p); r = a; }
    else if(k == 2) { r = a + p; vc_check(same(a, a0), "a+p leaves a unchanged"); }
    else { a += p; r = a; }
    vc_check(isunion(r, a0, pb), "extending a box by a point gives the smallest box containing both");
    vc_check(r.inside(&p), "the added point is inside");
    vc_check(p.x == p0.x && p.y == p0.y && p.z == p0.z, "argument unchanged");
}
HARNESS(aabb_inside)
{
    AABB a = box(A); Point3 p = pt("px", "py", "pz");
    vc_check(a.inside(&p) == in(a, p), "inside() is exactly membership in the closed box");
}
/* ray/box: real arithmetic, every ray with non-zero direction components */
HARNESS(aabb_ray)
{
    AABB a = box(A);
    Point3 o = pt("ox", "oy", "oz"); float dx = vc_f32("dx"), dy = vc_f32("dy"), dz = vc_f32("dz");
    vc_assume(dx != 0); vc_assume(dy != 0); vc_assume(dz != 0);
    Ray r = Ray(o, Vec3(dx, dy, dz)); float t1 = vc_f32("t1"), t2 = vc_f32("t2"), u1 = t1, u2 = t2;
    // slab entry/exit distances written independently of the code
    float x0 = (a.bounds[0].x - o.x) / dx, x1 = (a.bounds[1].x - o.x) / dx, y0 = (a.bounds[0].y - o.y) / dy, y1 = (a.bounds[1].y - o.y) / dy, z0 = (a.bounds[0].z - o.z) / dz, z1 = (a.bounds[1].z - o.z) / dz;
    vc_lemma(OR(AND(dx > 0, x0 <= x1), AND(dx < 0, x1 <= x0)), "x slab order");
    vc_lemma(OR(AND(dy > 0, y0 <= y1), AND(dy < 0, y1 <= y0)), "y slab order");
    vc_lemma(OR(AND(dz > 0, z0 <= z1), AND(dz < 0, z1 <= z0)), "z slab order");
    float en = fmx(fmn(x0, x1), fmx(fmn(y0, y1), fmn(z0, z1))), ex = fmn(fmx(x0, x1), fmn(fmx(y0, y1), fmx(z0, z1)));
    uint32_t k = vc_pick("overload", 2);
    bool hit;
    if(k == 0) hit = a.intersect(&r, &t1, &t2);
    else { RayProperties rp(r); hit = a.intersect(&r, &rp, &t1, &t2); }
    vc_check(OR(hit, AND(t1 == u1, t2 == u2)), "a miss leaves the outputs untouched");
    vc_check(OR(!hit, vc_fletol(en, ex, 1e-3f)), "a reported hit has a non-empty interval");
    vc_check(OR(!hit, vc_feqtol(t1, en, 1e-3f)), "near distance is where the line enters the box");
    vc_check(OR(!hit, vc_feqtol(t2, ex, 1e-3f)), "far distance is where the line leaves the box");
    vc_check(OR(hit, vc_fletol(ex, en, 1e-3f)), "a reported miss means the line does not cross the box");
}
/* IEEE-754, every finite ray incl. signed-zero components: starting strictly inside always hits */
HARNESS(aabb_from_inside)
{
    AABB a = box(A); Point3 o = pt("ox", "oy", "oz"); float dx = vc_f32("dx"), dy = vc_f32("dy"), dz = vc_f32("dz");
    vc_assume(o.x > a.bounds[0].x); vc_assume(o.x < a.bounds[1].x); vc_assume(o.y > a.bounds[0].y); vc_assume(o.y < a.bounds[1].y); vc_assume(o.z > a.bounds[0].z); vc_assume(o.z < a.bounds[1].z);
    Ray r = Ray(o, Vec3(dx, dy, dz)); float t1 = 7, t2 = -7; bool hit;
    if(vc_pick("overload", 2) == 0) hit = a.intersect(&r, &t1, &t2);
    else { RayProperties rp(r); hit = a.intersect(&r, &rp, &t1, &t2); }
    vc_check(hit, "a ray starting strictly inside the box hits it");
    vc_check(IMPLIES(hit, AND(t1 <= 0, t2 >= 0)), "the interval of a ray starting inside contains its origin");
}
/* rays parallel to one axis, origin strictly outside that slab: miss, outputs untouched */
HARNESS(aabb_parallel)
{
    AABB a = box(A); float o[3] = {vc_f32in("ox", -1e6f, 1e6f), vc_f32in("oy", -1e6f, 1e6f), vc_f32in("oz", -1e6f, 1e6f)}; float d[3];
    for(int i = 0; i < 2; i++) { vc_assume(ALL(a.bounds[i].x <= 1e6f, a.bounds[i].x >= -1e6f)); vc_assume(ALL(a.bounds[i].y <= 1e6f, a.bounds[i].y >= -1e6f)); vc_assume(ALL(a.bounds[i].z <= 1e6f, a.bounds[i].z >= -1e6f)); }
    uint32_t ax = vc_pick("axis", 3); bool neg = vc_pick("negzero", 2) != 0; uint32_t other = vc_pick("other", 2);
    const char* N[3] = {"d0", "d1", "d2"};
    for(uint32_t i = 0; i < 3; i++) { d[i] = vc_f32(N[i]); if(i == ax) d[i] = neg ? -0.f : 0.f; }
    // one other component is not (nearly) zero; a second zero component is fine unless the origin lies exactly on a face plane
    float m = d[(ax + 1 + other) % 3]; vc_assume(OR(m >= 1e-6f, m <= -1e-6f));
    uint32_t l = (ax + 2 - other) % 3; vc_assume(ANY(d[l] >= 1e-6f, d[l] <= -1e-6f, ALL(d[l] == 0, o[l] != (&a.bounds[0].x)[l], o[l] != (&a.bounds[1].x)[l])));
    const float* lo = &a.bounds[0].x; const float* hi = &a.bounds[1].x;
    vc_assume(OR(o[ax] < lo[ax], o[ax] > hi[ax]));
    Ray r = Ray(Point3(o[0], o[1], o[2]), Vec3(d[0], d[1], d[2])); float t1 = 7, t2 = -7; bool hit;
    if(vc_pick("overload", 2) == 0) hit = a.intersect(&r, &t1, &t2);
    else { RayProperties rp(r); hit = a.intersect(&r, &rp, &t1, &t2); }
    vc_check(!hit, "a ray parallel to a slab and outside it misses the box");
    vc_check(AND(t1 == 7.f, t2 == -7.f), "a miss leaves the outputs untouched");
}
HARNESS(aabb_measure)
{
    AABB a = box(A), b = box(B), a0 = a;
    float w = a.bounds[1].x - a.bounds[0].x, h = a.bounds[1].y - a.bounds[0].y, d = a.bounds[1].z - a.bounds[0].z;
    float w2 = b.bounds[1].x - b.bounds[0].x, h2 = b.bounds[1].y - b.bounds[0].y, d2 = b.bounds[1].z - b.bounds[0].z;
    float sa = 2 * (w * h + w * d + h * d), sb = 2 * (w2 * h2 + w2 * d2 + h2 * d2);
    vc_check(vc_feqtol(a.surface(), sa, 1e-3f), "surface area of the box");
    vc_check(vc_feqtol(a.volume(), w * h * d, 1e-3f), "volume of the box");
    vc_check(AND(a.surface() >= 0, a.volume() >= 0), "area and volume are never negative");
    Point3 c = a.center(); vc_check(ALL(vc_feqtol(2 * c.x, a.bounds[0].x + a.bounds[1].x, 1e-3f), vc_feqtol(2 * c.y, a.bounds[0].y + a.bounds[1].y, 1e-3f), vc_feqtol(2 * c.z, a.bounds[0].z + a.bounds[1].z, 1e-3f)), "centre is the midpoint of the corners");
    char l = a.longest_axis(); float e[3] = {w, h, d};
    vc_check(AND(l >= 0, l <= 2), "longest axis is one of the three axes");
    float el = l == 0 ? w : (l == 1 ? h : d);
    vc_check(ALL(el >= w, el >= h, el >= d), "longest axis has the largest extent");
    vc_nat(sa < sb - 0.01f * sb || sa > sb + 0.01f * sb || a.bounds[0].x == b.bounds[0].x);
    vc_check((a < b) == (a.surface() < b.surface()), "a<b compares surfaces"); vc_check((a > b) == (b.surface() < a.surface()), "a>b compares surfaces");
    vc_check((a <= b) == (a.surface() <= b.surface()), "a<=b compares surfaces"); vc_check((a >= b) == (a.surface() >= b.surface()), "a>=b compares surfaces");
    vc_check((a == b) == (a.surface() == b.surface()), "a==b compares surfaces"); vc_check((a != b) == !(a == b), "a!=b is the negation of a==b");
    vc_check(same(a, a0), "queries leave the box unchanged");
    float v = vc_f32in("v", -1000, 1000); AABB x = a; x.expand(v);
    vc_check(ALL(vc_feqtol(x.bounds[0].x, a.bounds[0].x - v, 1e-3f), vc_feqtol(x.bounds[0].y, a.bounds[0].y - v, 1e-3f), vc_feqtol(x.bounds[0].z, a.bounds[0].z - v, 1e-3f), vc_feqtol(x.bounds[1].x, a.bounds[1].x + v, 1e-3f), vc_feqtol(x.bounds[1].y, a.bounds[1].y + v, 1e-3f), vc_feqtol(x.bounds[1].z, a.bounds[1].z + v, 1e-3f)), "expansion moves every face outward by the given amount");
}
