#include "bounds.h"
#include "primitives/asset.hpp"
#include "primitives/shape.hpp"
#include "primitives/hit_point.hpp"
#include "textures/mask_boolean.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
MaskBoolean::MaskBoolean() : map(NULL) {}
static const MaskBoolean* s_mask; static Ray s_ray; static int s_calls; static bool s_ret; static float s_t; static HitPoint s_hit; static float n_k[4]; static int n_n;
// contract of a shape: any verdict, any hit on the ray it was given
#ifndef VC_NATIVE
/* contracts of normalize, proved in G02 */
extern "C" void CONTRACT(_ZN4Vec39normalizeEv)(Vec3* v) { vc_check(len2(*v) > 0, "a non-zero vector is normalised"); float k = vc_f32("k"), x = k * v->x, y = k * v->y, z = k * v->z; vc_assume(ALL(k > 0, x * x + y * y + z * z > 0.9999f, x * x + y * y + z * z < 1.0001f)); v->x = x; v->y = y; v->z = z; n_k[n_n++ & 3] = k; }
extern "C" void CONTRACT(_ZN6Normal9normalizeEv)(Normal* v) { vc_check(len2(*v) > 0, "a non-zero vector is normalised"); float k = vc_f32("k"), x = k * v->x, y = k * v->y, z = k * v->z; vc_assume(ALL(k > 0, x * x + y * y + z * z > 0.9999f, x * x + y * y + z * z < 1.0001f)); v->x = x; v->y = y; v->z = z; n_k[n_n++ & 3] = k; }
#endif
struct AnyShape : public Shape
{
    AnyShape() {}
    bool intersect(const Ray* r, float* d, HitPoint* h, const MaskBoolean* m) const { s_calls++; s_ray = *r; s_mask = m; if(!s_ret) return false; *d = s_t; Point3 q = r->apply(s_t); s_hit.point_h = q; h->point_h = q; h->normal_h = s_hit.normal_h; h->dpdu = s_hit.dpdu; h->dpdv = s_hit.dpdv; h->index = s_hit.index; h->uv = s_hit.uv; return true; }
    AABB compute_AABB() const { return AABB(); } AABB compute_AABB(const Matrix4*) const { return AABB(); }
    float surface() const { return 1; } float surface(const Matrix4*) const { return 1; }
    int get_faces_number() const { return 4; }
    void get_densities_array(const Matrix4*, float*) const {}
    void sample_point(float, float, const float*, Point3*, Normal*) const {}
};
HARNESS(asset_hit)
{
    // an affine transform and its inverse (the inverse is proved in G03)
    Matrix4 M = vmat(), W; 
    if(vc_symbolic()) { float w[16]; static const char* N[12] = {"w0","w1","w2","w3","w4","w5","w6","w7","w8","w9","wa","wb"}; for(int i = 0; i < 12; i++) w[i] = vc_f32(N[i]); w[12] = w[13] = w[14] = 0; w[15] = 1; W = Matrix4(w);
        for(int i = 0; i < 3; i++) for(int j = 0; j < 4; j++) { const float* a = (&M.m00) + 4 * i; const float* b = &W.m00; float s = a[0] * b[j] + a[1] * b[4 + j] + a[2] * b[8 + j] + (j == 3 ? a[3] : 0); vc_assume(s == (i == j ? 1 : 0)); }
        for(int i = 0; i < 3; i++) for(int j = 0; j < 4; j++) { const float* a = (&W.m00) + 4 * i; const float* b = &M.m00; float s = a[0] * b[j] + a[1] * b[4 + j] + a[2] * b[8 + j] + (j == 3 ? a[3] : 0); vc_assume(s == (i == j ? 1 : 0)); } }
    else { float v[16]; memcpy(v, &M.m00, 64); float sc = 0; for(int i = 0; i < 12; i++) sc = fmx(sc, fabsf(v[i])); vc_assume(sc > 1e-6f); for(int i = 0; i < 12; i++) v[i] *= 2 / sc; v[0] += 1; v[5] += 1; v[10] += 1; M = Matrix4(v); float det = v[0]*(v[5]*v[10]-v[6]*v[9])-v[1]*(v[4]*v[10]-v[6]*v[8])+v[2]*(v[4]*v[9]-v[5]*v[8]); vc_assume(fabsf(det) > 0.2f); }
    AnyShape sp; Asset* a = (Asset*)malloc(sizeof(Asset)); 
    if(vc_symbolic()) { a->model = &sp; a->objToWorld = M; a->worldToObj = W; } else new (a) Asset(&sp, M, 1);
    Point3 o = vpt("ox", "oy", "oz"); Vec3 d = vvec("dx", "dy", "dz"); Ray r(o, d); vc_nat(len2(d) > 0.01f && len2(d) < 100 && len2(o) < 1e4f);
    s_ret = vc_split(vc_bool("hit")); s_t = vc_f32("t"); vc_nat(s_t > 0 && s_t < 50); s_hit.normal_h = unit<Normal>("nx", "ny", "nz"); s_hit.dpdu = vvec("ux", "uy", "uz"); s_hit.dpdv = vvec("vx", "vy", "vz"); s_hit.index = vc_u32("face"); s_hit.uv = Point2(vc_f32("u"), vc_f32("v"));
    vc_assume(AND(len2(s_hit.dpdu) > 0, len2(s_hit.dpdv) > 0)); vc_nat(len2(s_hit.dpdu) > 0.01f && len2(s_hit.dpdv) > 0.01f && len2(s_hit.dpdu) < 100 && len2(s_hit.dpdv) < 100);
    if(vc_symbolic()) vc_assume(AND(dot3(s_hit.normal_h, s_hit.dpdu) == 0, dot3(s_hit.normal_h, s_hit.dpdv) == 0)); else { const Normal& n = s_hit.normal_h; s_hit.dpdu = cross(Vec3(n.x, n.y, n.z), s_hit.dpdu); s_hit.dpdv = cross(Vec3(n.x, n.y, n.z), s_hit.dpdv); vc_assume(len2(s_hit.dpdu) > 0.01f && len2(s_hit.dpdv) > 0.01f); }
    const Vec3 mu = M * s_hit.dpdu, mv = M * s_hit.dpdv, out = M * Vec3(s_hit.normal_h.x, s_hit.normal_h.y, s_hit.normal_h.z);
    const float g_lu = vc_name(len2(mu)), g_lv = vc_name(len2(mv));
    if(vc_symbolic()) { Normal wn = transform_normal(s_hit.normal_h, &W); const Vec3 bu = W * mu, bv = W * mv; vc_lemma(ALL(bu.x == s_hit.dpdu.x, bu.y == s_hit.dpdu.y, bu.z == s_hit.dpdu.z), "inverse u"); vc_lemma(ALL(bv.x == s_hit.dpdv.x, bv.y == s_hit.dpdv.y, bv.z == s_hit.dpdv.z), "inverse v");
        vc_lemma(len2(mu) > 0, "u survives"); vc_lemma(len2(mv) > 0, "v survives"); vc_by(AND(g_lu == len2(mu), len2(mu) > 0), g_lu > 0, "positive u"); vc_by(AND(g_lv == len2(mv), len2(mv) > 0), g_lv > 0, "positive v"); vc_lemma(dot3(wn, out) == len2(s_hit.normal_h), "inverse transpose"); vc_lemma(len2(wn) > 0, "normal survives"); vc_lemma(dot3(wn, mu) == dot3(s_hit.normal_h, s_hit.dpdu), "perpendicularity u"); vc_lemma(dot3(wn, mv) == dot3(s_hit.normal_h, s_hit.dpdv), "perpendicularity v"); }
    float dist = vc_f32("far"), far = dist; HitPoint h; h.point_h = Point3(7, 7, 7); h.normal_h = Normal(7, 7, 7); h.index = 77;
    s_calls = 0; bool res = a->Asset::intersect(&r, &dist, &h);
    vc_check(AND(res == s_ret, s_calls == 1), "the object is hit exactly when its shape is");
    vc_check(s_mask == &a->mask, "the shape is given the object's own mask");
    if(!s_ret) { vc_check(ALL(dist == far, h.point_h.x == 7, h.normal_h.x == 7, h.index == 77), "a miss leaves the outputs untouched"); return; }
    Point3 back = M * s_ray.origin; Vec3 bd = M * s_ray.direction;
    vc_check(AND(eq3(back, o.x, o.y, o.z), eq3(bd, d.x, d.y, d.z)), "the shape is asked about the same ray, seen from object space");
    vc_check(dist == s_t, "the distance along the ray does not depend on the object's transform");
    vc_check(eq3(h.point_h, o.x + s_t * d.x, o.y + s_t * d.y, o.z + s_t * d.z), "the reported point lies on the world ray at the reported distance");
    vc_check(near1(len2(h.normal_h)), "the normal is a unit vector in world space"); vc_check(AND(near1(len2(h.dpdu)), near1(len2(h.dpdv))), "the surface derivatives are unit vectors in world space");
    vc_check(vc_feqtol(h.dpdu.x * mu.y, h.dpdu.y * mu.x, 5e-2f), "the derivative is the transformed one"); vc_check(vc_feqtol(h.dpdv.y * mv.z, h.dpdv.z * mv.y, 5e-2f), "the derivative is the transformed one");
    if(vc_symbolic()) for(int i = 0; i < 3; i++) if(i < n_n) { vc_lemma(n_k[i] * g_lu > 0, "scaled length u"); vc_lemma(n_k[i] * g_lv > 0, "scaled length v"); }
    vc_check(dot3(h.dpdu, mu) > 0, "the derivative keeps its direction"); vc_check(dot3(h.dpdv, mv) > 0, "the derivative keeps its direction");
    vc_check(vc_feqtol(dot3(h.normal_h, h.dpdu), 0, 2e-2f), "the world normal is perpendicular to the transformed surface (u)"); vc_check(vc_feqtol(dot3(h.normal_h, h.dpdv), 0, 2e-2f), "the world normal is perpendicular to the transformed surface (v)");
    vc_check(dot3(h.normal_h, out) > 0, "the normal keeps its side of the surface");
    vc_check(ALL(h.index == s_hit.index, h.uv.x == s_hit.uv.x, h.uv.y == s_hit.uv.y), "face and texture coordinates are those of the shape");
}
HARNESS(hit_diff)
{
    HitPoint h; h.point_h = vpt("px", "py", "pz"); h.normal_h = unit<Normal>("nx", "ny", "nz"); if(!vc_symbolic()) { uint32_t q = vc_pick("shape", 8); if(q < 6) { h.normal_h[q % 3] *= 1e-6f; if(q > 2) h.normal_h[(q + 1) % 3] = 0; if(len2(h.normal_h) < 1e-6f) h.normal_h[(q + 2) % 3] = 1; h.normal_h.normalize(); } } const Point3 p = h.point_h; const Normal n = h.normal_h;
    Vec3 U = vvec("ux", "uy", "uz"), V = vvec("vx", "vy", "vz");
    if(!vc_symbolic()) { U = cross(Vec3(n.x, n.y, n.z), U); V = cross(Vec3(n.x, n.y, n.z), V); vc_assume(len2(U) > 1e-3f && len2(V) > 1e-3f); U.normalize(); V.normalize(); Vec3 c = cross(U, V); vc_nat(len2(c) > 0.05f); }
    else vc_assume(AND(dot3(n, U) == 0, dot3(n, V) == 0));
    h.dpdu = U; h.dpdv = V;
    Ray rx(vpt("ax", "ay", "az"), vvec("dx", "dy", "dz")), ry(vpt("bx", "by", "bz"), vvec("ex", "ey", "ez"));
    float cx = dot3(n, rx.direction), cy = dot3(n, ry.direction); vc_assume(AND(cx != 0, cy != 0)); vc_nat(fabsf(cx) > 0.1f && fabsf(cy) > 0.1f && len2(p) < 100 && len2(rx.origin) < 100 && len2(ry.origin) < 100 && len2(rx.direction) < 10 && len2(ry.direction) < 10);
    Ray x = rx, y = ry; calculate_differentials(&h, &x, &y);
    vc_check(ALL(same3(h.point_h, p), same3(h.normal_h, n), same3(h.dpdu, U), same3(h.dpdv, V), same3(x.origin, rx.origin), same3(x.direction, rx.direction), same3(y.origin, ry.origin), same3(y.direction, ry.direction)), "only the differentials change");
    // where the neighbouring rays meet the tangent plane
    float tx = (dot3(n, p) - dot3(n, rx.origin)) / cx, ty = (dot3(n, p) - dot3(n, ry.origin)) / cy;
    Point3 qx(rx.origin.x + tx * rx.direction.x, rx.origin.y + tx * rx.direction.y, rx.origin.z + tx * rx.direction.z), qy(ry.origin.x + ty * ry.direction.x, ry.origin.y + ty * ry.direction.y, ry.origin.z + ty * ry.direction.z);
    if(!vc_split(h.differentials)) { Vec3 c(U.y * V.z - U.z * V.y, U.z * V.x - U.x * V.z, U.x * V.y - U.y * V.x); if(vc_symbolic()) { bool bx = ALL(fabsf(n.x) > fabsf(n.y), fabsf(n.x) > fabsf(n.z)), by = fabsf(n.y) > fabsf(n.z); uint32_t ax = vc_split(bx) ? 0 : vc_split(by) ? 1 : 2; int i0 = ax == 0 ? 1 : 0, i1 = ax == 2 ? 1 : 2; float cc[3] = {vc_name(c.x), vc_name(c.y), vc_name(c.z)};
            vc_lemma(AND(c[ax] <= 1.1e-5f, c[ax] >= -1.1e-5f), "small"); vc_lemma(AND(c[i0] * n[ax] == c[ax] * n[i0], c[i1] * n[ax] == c[ax] * n[i1]), "parallel to the normal"); vc_lemma(n[ax] * n[ax] * 3 >= 0.999f, "dominant axis");
            float X = vc_name(c[ax]), Y = vc_name(c[i0]), Z = vc_name(c[i1]); bool eq = ALL(X == c[ax], Y == c[i0], Z == c[i1]); vc_by(ALL(eq, c[ax] <= 1.1e-5f, c[ax] >= -1.1e-5f), AND(X <= 1.1e-5f, X >= -1.1e-5f), "small (named)"); vc_by(ALL(eq, c[i0] * n[ax] == c[ax] * n[i0], c[i1] * n[ax] == c[ax] * n[i1]), AND(Y * n[ax] == X * n[i0], Z * n[ax] == X * n[i1]), "parallel (named)"); (void)cc; float one = len2(n);
            vc_lemma(one == 1, "unit"); vc_by(ALL(Y * n[ax] == X * n[i0], Z * n[ax] == X * n[i1], one == 1), n[ax] * n[ax] * (X * X + Y * Y + Z * Z) == X * X, "cross length"); vc_by(AND(X <= 1.1e-5f, X >= -1.1e-5f), X * X < 1e-9f, "tiny");
            float L = vc_name(X * X + Y * Y + Z * Z), m = vc_name(n[ax] * n[ax]), x2 = vc_name(X * X); vc_by(ALL(L == X * X + Y * Y + Z * Z, m == n[ax] * n[ax], x2 == X * X, n[ax] * n[ax] * (X * X + Y * Y + Z * Z) == X * X), m * L == x2, "length (named)"); vc_by(ALL(m == n[ax] * n[ax], n[ax] * n[ax] * 3 >= 0.999f, L == X * X + Y * Y + Z * Z, x2 == X * X, X * X < 1e-9f), ALL(m >= 0.3f, L >= 0, x2 < 1e-9f), "bounds"); vc_by(ALL(m * L == x2, m >= 0.3f, L >= 0, x2 < 1e-9f), L < 1e-3f, "short"); vc_by(ALL(eq, L == X * X + Y * Y + Z * Z, L < 1e-3f), len2(c) < 1e-3f, "nearly parallel"); }
        vc_check(len2(c) < 1e-3f, "differentials are given up only when the derivatives are (nearly) parallel"); return; }
    uint32_t k = vc_pick("axis", 3);
    if(vc_symbolic()) {
        bool bx = ALL(fabsf(n.x) > fabsf(n.y), fabsf(n.x) > fabsf(n.z)), by = fabsf(n.y) > fabsf(n.z); uint32_t ax = vc_split(bx) ? 0 : vc_split(by) ? 1 : 2; int i0 = ax == 0 ? 1 : 0, i1 = ax == 2 ? 1 : 2;
        float D = vc_name(U[i0] * V[i1] - V[i0] * U[i1]); vc_lemma(D != 0, "regular"); vc_lemma(n[ax] != 0, "dominant");
        for(int s = 0; s < 2; s++) { const Point3& q = s ? qy : qx; float du = vc_name(s ? h.du.y : h.du.x), dv = vc_name(s ? h.dv.y : h.dv.x), e0 = vc_name(q[i0] - p[i0]), e1 = vc_name(q[i1] - p[i1]), ea = vc_name(q[ax] - p[ax]);
            bool c1 = du * D == V[i1] * e0 - V[i0] * e1, c2 = dv * D == U[i0] * e1 - U[i1] * e0; float w0 = vc_name(e0 - du * U[i0] - dv * V[i0]), w1 = vc_name(e1 - du * U[i1] - dv * V[i1]), wa = vc_name(ea - du * U[ax] - dv * V[ax]);
            float rd = s ? h.du.y : h.du.x, rv = s ? h.dv.y : h.dv.x, inv = 1.f / (U[i0] * V[i1] - V[i0] * U[i1]), N = V[i1] * (q[i0] - p[i0]) - V[i0] * (q[i1] - p[i1]), N2 = U[i0] * (q[i1] - p[i1]) - U[i1] * (q[i0] - p[i0]); vc_lemma(rd == N * inv, "Cramer u"); vc_lemma(rv == N2 * inv, "Cramer v"); float ni = vc_name(inv); vc_lemma(ni * D == 1, "reciprocal");
            float nN = vc_name(N), nN2 = vc_name(N2); vc_by(ALL(rd == N * inv, nN == N, ni == inv, du == rd), du == nN * ni, "named u"); vc_by(ALL(rv == N2 * inv, nN2 == N2, ni == inv, dv == rv), dv == nN2 * ni, "named v"); vc_by(AND(du == nN * ni, ni * D == 1), du * D == nN, "scaled u"); vc_by(AND(dv == nN2 * ni, ni * D == 1), dv * D == nN2, "scaled v");
            bool de0 = e0 == q[i0] - p[i0], de1 = e1 == q[i1] - p[i1], dea = ea == q[ax] - p[ax]; vc_by(ALL(du * D == nN, nN == N, de0, de1), c1, "first unknown"); vc_by(ALL(dv * D == nN2, nN2 == N2, de0, de1), c2, "second unknown"); bool dD = D == U[i0] * V[i1] - V[i0] * U[i1], d0 = w0 == e0 - du * U[i0] - dv * V[i0], d1 = w1 == e1 - du * U[i1] - dv * V[i1], da = wa == ea - du * U[ax] - dv * V[ax];
            vc_by(ALL(c1, c2, dD, d0), D * w0 == 0, "first scaled"); vc_by(ALL(c1, c2, dD, d1), D * w1 == 0, "second scaled"); vc_by(AND(D * w0 == 0, D != 0), w0 == 0, "first"); vc_by(AND(D * w1 == 0, D != 0), w1 == 0, "second");
            bool pl = n[i0] * e0 + n[i1] * e1 + n[ax] * ea == 0, pu = n[i0] * U[i0] + n[i1] * U[i1] + n[ax] * U[ax] == 0, pv = n[i0] * V[i0] + n[i1] * V[i1] + n[ax] * V[ax] == 0; bool plq = n[i0] * (q[i0] - p[i0]) + n[i1] * (q[i1] - p[i1]) + n[ax] * (q[ax] - p[ax]) == 0; vc_lemma(plq, "on the tangent plane"); vc_by(ALL(plq, de0, de1, dea), pl, "on the tangent plane (named)"); vc_lemma(AND(pu, pv), "tangents");
            vc_by(ALL(pl, pu, pv, d0, d1, da), n[i0] * w0 + n[i1] * w1 + n[ax] * wa == 0, "in the plane"); vc_by(ALL(n[i0] * w0 + n[i1] * w1 + n[ax] * wa == 0, w0 == 0, w1 == 0, n[ax] != 0), wa == 0, "third");
            bool same = AND(du == rd, dv == rv); vc_by(ALL(w0 == 0, d0, de0, same), q[i0] == p[i0] + rd * U[i0] + rv * V[i0], "reach"); vc_by(ALL(w1 == 0, d1, de1, same), q[i1] == p[i1] + rd * U[i1] + rv * V[i1], "reach"); vc_by(ALL(wa == 0, da, dea, same), q[ax] == p[ax] + rd * U[ax] + rv * V[ax], "reach"); } }
    vc_check(vc_feqtol(qx[k], p[k] + h.du.x * U[k] + h.dv.x * V[k], 5e-2f), "stepping by the x differentials reaches the neighbouring ray"); vc_check(vc_feqtol(qy[k], p[k] + h.du.y * U[k] + h.dv.y * V[k], 5e-2f), "stepping by the y differentials reaches the neighbouring ray");
}
HARNESS(asset_materials)
{
    AnyShape sp; Matrix4 I; I.set_identity(); Asset a(&sp, I, 1); uint32_t n = vc_pick("n", 8) + 1; static char pool[8]; const Bsdf* mats[8]; for(int i = 0; i < 8; i++) mats[i] = (const Bsdf*)(pool + i); const unsigned char ix[4] = {vc_u8("i0"), vc_u8("i1"), vc_u8("i2"), vc_u8("i3")}; for(int i = 0; i < 4; i++) vc_assume(ix[i] < n);
    const Bsdf* want[4]; for(int i = 0; i < 4; i++) want[i] = (const Bsdf*)(pool + ix[i]);
    a.set_materials(mats, (unsigned char)n, ix); for(int i = 0; i < 8; i++) mats[i] = NULL; uint32_t f = vc_pick("face", 4); vc_check(a.get_material(f) == want[f], "every face gets the material its index names, copied from the caller's list");
    AnyShape s2; Asset b(&s2, I, 1); vc_check(AND(a.get_id() != b.get_id(), !a.is_light()), "objects have distinct identities");
}
