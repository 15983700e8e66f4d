#include "geo.h"
/* every operation is checked against its component-wise mathematical definition */
template<typename V> static V mk(const char* a, const char* b, const char* c) { float x = vc_f32(a), y = vc_f32(b), z = vc_f32(c); return V(x, y, z); }
template<typename V> static void common()
{
    V a = mk<V>("ax", "ay", "az"), b = mk<V>("bx", "by", "bz"); const V a0 = a, b0 = b; float s = vc_f32("s");
    uint32_t k = vc_pick("op", 16);
    V r;
    if(k == 0) { r = a + b; vc_check(eq3(r, a0.x + b0.x, a0.y + b0.y, a0.z + b0.z), "sum"); }
    if(k == 1) { r = a - b; vc_check(eq3(r, a0.x - b0.x, a0.y - b0.y, a0.z - b0.z), "difference"); }
    if(k == 2) { r = a * s; vc_check(eq3(r, a0.x * s, a0.y * s, a0.z * s), "scaling"); }
    if(k == 3) { vc_assume(s != 0); vc_nat(fabsf(s) > 0.05f); r = a / s; vc_check(ALL(vc_feqtol(r.x * s, a0.x, TOL), vc_feqtol(r.y * s, a0.y, TOL), vc_feqtol(r.z * s, a0.z, TOL)), "division by a scalar"); }
    if(k == 4) { r = -a; vc_check(eq3(r, -a0.x, -a0.y, -a0.z), "negation"); r = !a; vc_check(eq3(r, -a0.x, -a0.y, -a0.z), "negation operator !"); }
    if(k == 5) { vc_check(vc_feqtol(a.dot(b), dot3(a0, b0), TOL), "dot product member"); vc_check(vc_feqtol(dot(a, b), dot3(a0, b0), TOL), "dot product"); }
    if(k == 6) { vc_nat(len2(a0) < 1e4f); float l = a.length(); vc_check(AND(l >= 0, vc_feqtol(l * l, len2(a0), TOL)), "length"); vc_check(vc_feqtol(a.length2(), len2(a0), TOL), "squared length"); }
    if(k == 7) { a += b; vc_check(eq3(a, a0.x + b0.x, a0.y + b0.y, a0.z + b0.z), "in-place sum"); a = a0; }
    if(k == 8) { a -= b; vc_check(eq3(a, a0.x - b0.x, a0.y - b0.y, a0.z - b0.z), "in-place difference"); a = a0; }
    if(k == 9) { a *= s; vc_check(eq3(a, a0.x * s, a0.y * s, a0.z * s), "in-place scaling"); a = a0; }
    if(k == 10) { vc_assume(s != 0); vc_nat(fabsf(s) > 0.05f); a /= s; vc_check(ALL(vc_feqtol(a.x * s, a0.x, TOL), vc_feqtol(a.y * s, a0.y, TOL), vc_feqtol(a.z * s, a0.z, TOL)), "in-place division"); a = a0; }
    if(k == 11) { r = a * b; vc_check(eq3(r, a0.x * b0.x, a0.y * b0.y, a0.z * b0.z), "component product"); }
    if(k == 12) { r = cross(a, b); vc_check(eq3(r, a0.y * b0.z - a0.z * b0.y, a0.z * b0.x - a0.x * b0.z, a0.x * b0.y - a0.y * b0.x), "cross product"); }
    if(k == 13)
    {
        vc_assume(len2(a0) > 0); vc_nat(len2(a0) > 1e-3f);
        r = a; r.normalize(); V q = normalize(a);
        vc_check(ALL(vc_fletol(len2(r), 1.00001f, 1e-3f), vc_fletol(0.99999f, len2(r), 1e-3f)), "normalize gives unit length");
        vc_check(ALL(vc_fletol(len2(q), 1.00001f, 1e-3f), vc_fletol(0.99999f, len2(q), 1e-3f)), "free normalize gives unit length");
        vc_check(AND(eq3(cross(r, a0), 0, 0, 0), dot3(r, a0) > 0), "normalize keeps the direction");
        vc_check(AND(eq3(cross(q, a0), 0, 0, 0), dot3(q, a0) > 0), "free normalize keeps the direction");
    }
    if(k == 14) { float d = a.distance(b), d2 = distance(a, b); V df = a0 - b0; vc_nat(len2(df) < 1e4f); vc_check(AND(d >= 0, vc_feqtol(d * d, len2(df), TOL)), "distance"); vc_check(AND(d2 >= 0, vc_feqtol(d2 * d2, len2(df), TOL)), "free distance"); }
    if(k == 15) { vc_check(ALL(a[0] == a0.x, a[1] == a0.y, a[2] == a0.z), "indexing"); }
    vc_check(AND(same3(a, a0), same3(b, b0)), "operands unchanged");
}
HARNESS(vec3_ops) { common<Vec3>(); }
HARNESS(vec3_more)
{
    Vec3 a = vvec("ax", "ay", "az"), b = vvec("bx", "by", "bz"); const Vec3 a0 = a, b0 = b;
    uint32_t k = vc_pick("op", 10);
    if(k == 0) { a.max(b); Vec3 r = max(a0, b); vc_check(eq3(a, fmx(a0.x, b0.x), fmx(a0.y, b0.y), fmx(a0.z, b0.z)), "component maximum"); vc_check(eq3(r, fmx(a0.x, b0.x), fmx(a0.y, b0.y), fmx(a0.z, b0.z)), "free component maximum"); }
    if(k == 1) { a.min(b); Vec3 r = min(a0, b); vc_check(eq3(a, fmn(a0.x, b0.x), fmn(a0.y, b0.y), fmn(a0.z, b0.z)), "component minimum"); vc_check(eq3(r, fmn(a0.x, b0.x), fmn(a0.y, b0.y), fmn(a0.z, b0.z)), "free component minimum"); }
    if(k == 2) { Vec3 c = vvec("cx", "cy", "cz"); vc_assume(b.x <= c.x); vc_assume(b.y <= c.y); vc_assume(b.z <= c.z); a.clamp(b, c); Vec3 r = clamp(a0, b, c);
        vc_check(eq3(a, fmx(b.x, fmn(a0.x, c.x)), fmx(b.y, fmn(a0.y, c.y)), fmx(b.z, fmn(a0.z, c.z))), "clamp"); vc_check(eq3(r, fmx(b.x, fmn(a0.x, c.x)), fmx(b.y, fmn(a0.y, c.y)), fmx(b.z, fmn(a0.z, c.z))), "free clamp"); }
    if(k == 3) { a.saturate(); Vec3 r = saturate(a0); vc_check(eq3(a, fmx(0, fmn(a0.x, 1)), fmx(0, fmn(a0.y, 1)), fmx(0, fmn(a0.z, 1))), "saturate"); vc_check(eq3(r, fmx(0, fmn(a0.x, 1)), fmx(0, fmn(a0.y, 1)), fmx(0, fmn(a0.z, 1))), "free saturate"); }
    if(k == 4) { vc_assume(b.x != 0); vc_assume(b.y != 0); vc_assume(b.z != 0); vc_nat(fabsf(b.x) > 0.05f && fabsf(b.y) > 0.05f && fabsf(b.z) > 0.05f); Vec3 r = a / b; a /= b;
        vc_check(ALL(vc_feqtol(r.x * b.x, a0.x, TOL), vc_feqtol(r.y * b.y, a0.y, TOL), vc_feqtol(r.z * b.z, a0.z, TOL)), "component division"); vc_check(same3(a, r), "in-place component division"); }
    if(k == 5) { a *= b; vc_check(eq3(a, a0.x * b.x, a0.y * b.y, a0.z * b.z), "in-place component product"); Vec3 o; a0.cross(b, &o); vc_check(eq3(o, a0.y * b0.z - a0.z * b0.y, a0.z * b0.x - a0.x * b0.z, a0.x * b0.y - a0.y * b0.x), "cross product member"); Vec3 p = a0.cross(b); vc_check(same3(o, p), "cross product members agree"); }
    if(k == 6) { float s = vc_f32("s"); Vec3 r = a + s, q = a - s; a += s; b -= s; vc_check(AND(eq3(r, a0.x + s, a0.y + s, a0.z + s), eq3(q, a0.x - s, a0.y - s, a0.z - s)), "sum and difference with a scalar"); vc_check(AND(eq3(a, a0.x + s, a0.y + s, a0.z + s), eq3(b, b0.x - s, b0.y - s, b0.z - s)), "in-place sum and difference with a scalar"); }
    if(k == 7) { bool e = a == b, n = a != b; float d = FLT_EPSILON; vc_check(e == !n, "equality and inequality are opposite"); vc_check(IMPLIES(same3(a, b), e), "equal vectors compare equal"); vc_check(IMPLIES(ANY(a.x > b.x + 2 * d + 1e-4f * (fabsf(a.x) + fabsf(b.x)), a.y + 2 * d + 1e-4f * (fabsf(a.y) + fabsf(b.y)) < b.y, a.z > b.z + 2 * d + 1e-4f * (fabsf(a.z) + fabsf(b.z))), n), "clearly different vectors compare different"); }
    if(k == 8) { float v[3]; a.to_array(v); Vec3 r(v); vc_check(same3(r, a0), "array round trip"); Vec3 q(Vec2(a0.x, a0.y), a0.z); vc_check(same3(q, a0), "construction from Vec2"); Vec3 u(a0.x); vc_check(eq3(u, a0.x, a0.x, a0.x), "replicated construction"); Vec3 w(Normal(a0.x, a0.y, a0.z)); vc_check(same3(w, a0), "construction from a normal"); }
    if(k == 9) { Vec3 z; vc_check(eq3(z, 0, 0, 0), "default vector is zero"); a[0] = b.x; a[1] = b.y; a[2] = b.z; vc_check(same3(a, b), "indexed assignment"); float l = len2(a0); vc_check(IMPLIES(AND(l > 0.9999f, l < 1.0001f), a0.is_normalized()) || !(l > 0.999999f && l < 1.000001f), "unit vectors are recognised"); vc_check(IMPLIES(OR(l > 1.001f, l < 0.999f), !a0.is_normalized()), "non-unit vectors are recognised"); }
}
HARNESS(normal_ops)
{
    Normal a = vnor("ax", "ay", "az"), b = vnor("bx", "by", "bz"); const Normal a0 = a, b0 = b; Vec3 v = vvec("vx", "vy", "vz"); float s = vc_f32("s");
    uint32_t k = vc_pick("op", 12);
    Normal r;
    if(k == 0) { r = a + b; vc_check(eq3(r, a0.x + b0.x, a0.y + b0.y, a0.z + b0.z), "sum"); a += b; vc_check(same3(a, r), "in-place sum"); }
    if(k == 1) { r = a - b; vc_check(eq3(r, a0.x - b0.x, a0.y - b0.y, a0.z - b0.z), "difference"); a -= b; vc_check(same3(a, r), "in-place difference"); }
    if(k == 2) { r = a * s; vc_check(eq3(r, a0.x * s, a0.y * s, a0.z * s), "scaling"); a *= s; vc_check(same3(a, r), "in-place scaling"); }
    if(k == 3) { vc_assume(s != 0); vc_nat(fabsf(s) > 0.05f); r = a / s; vc_check(ALL(vc_feqtol(r.x * s, a0.x, TOL), vc_feqtol(r.y * s, a0.y, TOL), vc_feqtol(r.z * s, a0.z, TOL)), "division by a scalar"); a /= s; vc_check(same3(a, r), "in-place division"); }
    if(k == 4) { r = -a; vc_check(eq3(r, -a0.x, -a0.y, -a0.z), "negation"); r = !a; vc_check(eq3(r, -a0.x, -a0.y, -a0.z), "negation operator !"); }
    if(k == 5) { vc_check(ALL(vc_feqtol(a.dot(b), dot3(a0, b0), TOL), vc_feqtol(a.dot(v), dot3(a0, v), TOL), vc_feqtol(v.dot(a), dot3(a0, v), TOL)), "dot products"); }
    if(k == 6) { vc_check(ALL(vc_feqtol(dot(a, b), dot3(a0, b0), TOL), vc_feqtol(dot(v, a), dot3(a0, v), TOL), vc_feqtol(dot(a, v), dot3(a0, v), TOL)), "free dot products"); }
    if(k == 7) { vc_nat(len2(a0) < 1e4f); float l = a.length(); vc_check(AND(l >= 0, vc_feqtol(l * l, len2(a0), TOL)), "length"); vc_check(vc_feqtol(a.length2(), len2(a0), TOL), "squared length"); }
    if(k == 8) { vc_assume(len2(a0) > 0); vc_nat(len2(a0) > 1e-3f); r = a; r.normalize(); vc_check(AND(vc_fletol(len2(r), 1.00001f, 1e-3f), vc_fletol(0.99999f, len2(r), 1e-3f)), "normalize gives unit length"); vc_check(AND(eq3(Vec3(a0.y * r.z - a0.z * r.y, a0.z * r.x - a0.x * r.z, a0.x * r.y - a0.y * r.x), 0, 0, 0), dot3(r, a0) > 0), "normalize keeps the direction"); }
    if(k == 9) { vc_check(ALL(a[0] == a0.x, a[1] == a0.y, a[2] == a0.z), "indexing"); Normal w(Vec3(a0.x, a0.y, a0.z)); vc_check(same3(w, a0), "construction from a vector"); float arr[3]; a.to_array(arr); Normal q(arr); vc_check(same3(q, a0), "array round trip"); }
    if(k == 11) { vc_check((a == b) == !(a != b), "equality and inequality are opposite"); vc_check(IMPLIES(same3(a, b), a == b), "equal normals compare equal"); }
}
HARNESS(vec2_ops)
{
    float ax = vc_f32("ax"), ay = vc_f32("ay"), bx = vc_f32("bx"), by = vc_f32("by"), s = vc_f32("s");
    Vec2 a(ax, ay), b(bx, by); const Vec2 a0 = a;
#define EQ2(v, p, q) AND(vc_feqtol((v).x, p, TOL), vc_feqtol((v).y, q, TOL))
    uint32_t k = vc_pick("op", 10);
    if(k == 0) { vc_check(AND(EQ2(a + b, ax + bx, ay + by), EQ2(a - b, ax - bx, ay - by)), "sum and difference"); vc_check(AND(EQ2(a + s, ax + s, ay + s), EQ2(a - s, ax - s, ay - s)), "sum and difference with a scalar"); }
    if(k == 1) { vc_check(AND(EQ2(a * b, ax * bx, ay * by), EQ2(a * s, ax * s, ay * s)), "products"); a += b; vc_check(EQ2(a, ax + bx, ay + by), "in-place sum"); a = a0; a -= b; vc_check(EQ2(a, ax - bx, ay - by), "in-place difference"); a = a0; a *= s; vc_check(EQ2(a, ax * s, ay * s), "in-place scaling"); a = a0; a *= b; vc_check(EQ2(a, ax * bx, ay * by), "in-place product"); }
    if(k == 2) { vc_assume(s != 0); vc_nat(fabsf(s) > 0.05f); Vec2 r = a / s; vc_check(EQ2(r * s, ax, ay), "division by a scalar"); a /= s; vc_check(AND(a.x == r.x, a.y == r.y), "in-place division"); }
    if(k == 3) { vc_check(AND(vc_feqtol(a.dot(b), ax * bx + ay * by, TOL), vc_feqtol(dot(a, b), ax * bx + ay * by, TOL)), "dot product"); }
    if(k == 4) { float l = a.length(); vc_nat(ax * ax + ay * ay < 1e4f); vc_check(AND(l >= 0, vc_feqtol(l * l, ax * ax + ay * ay, TOL)), "length"); vc_check(vc_feqtol(a.length2(), ax * ax + ay * ay, TOL), "squared length"); float d = a.distance(b); vc_check(AND(d >= 0, vc_feqtol(d * d, (ax - bx) * (ax - bx) + (ay - by) * (ay - by), TOL)), "distance"); }
    if(k == 5) { vc_assume(ax * ax + ay * ay > 0); vc_nat(ax * ax + ay * ay > 1e-3f); a.normalize(); float l = a.x * a.x + a.y * a.y; vc_check(AND(vc_fletol(l, 1.00001f, 1e-3f), vc_fletol(0.99999f, l, 1e-3f)), "normalize gives unit length"); vc_check(AND(vc_feqtol(a.x * ay, a.y * ax, TOL), a.x * ax + a.y * ay > 0), "normalize keeps the direction"); }
    if(k == 6) { a.max(b); vc_check(EQ2(a, fmx(ax, bx), fmx(ay, by)), "component maximum"); a = a0; a.min(b); vc_check(EQ2(a, fmn(ax, bx), fmn(ay, by)), "component minimum"); vc_check(AND(EQ2(max(a0, b), fmx(ax, bx), fmx(ay, by)), EQ2(min(a0, b), fmn(ax, bx), fmn(ay, by))), "free component extrema"); }
    if(k == 7) { a.saturate(); vc_check(EQ2(a, fmx(0, fmn(ax, 1)), fmx(0, fmn(ay, 1))), "saturate"); vc_check(EQ2(saturate(a0), fmx(0, fmn(ax, 1)), fmx(0, fmn(ay, 1))), "free saturate"); vc_check(AND(EQ2(-a0, -ax, -ay), EQ2(!a0, -ax, -ay)), "negation"); }
    if(k == 8) { float cx = vc_f32("cx"), cy = vc_f32("cy"); vc_assume(bx <= cx); vc_assume(by <= cy); a.clamp(b, Vec2(cx, cy)); vc_check(EQ2(a, fmx(bx, fmn(ax, cx)), fmx(by, fmn(ay, cy))), "clamp"); vc_check(EQ2(clamp(a0, b, Vec2(cx, cy)), fmx(bx, fmn(ax, cx)), fmx(by, fmn(ay, cy))), "free clamp"); }
    if(k == 9) { vc_check((a == b) == !(a != b), "equality and inequality are opposite"); vc_check(IMPLIES(AND(ax == bx, ay == by), a == b), "equal vectors compare equal"); float v[2]; a.to_array(v); vc_check(AND(v[0] == ax, v[1] == ay), "to_array"); }
}
/* reflection and refraction about a unit normal */
HARNESS(vec_reflect)
{
    Vec3 v = vvec("vx", "vy", "vz"); const Vec3 v0 = v; 
    bool isn = vc_pick("normal", 2);
    float d, nx, ny, nz;
    if(isn) { Normal n = unit<Normal>("nx", "ny", "nz"); d = dot3(v0, n); nx = n.x; ny = n.y; nz = n.z; v.reflect(n); }
    else { Vec3 n = unit<Vec3>("nx", "ny", "nz"); d = dot3(v0, n); nx = n.x; ny = n.y; nz = n.z; v.reflect(n); Vec3 f = reflect(v0, n); vc_check(eq3(f, v.x, v.y, v.z), "free reflect agrees with the member"); }
    vc_check(eq3(v, v0.x - 2 * d * nx, v0.y - 2 * d * ny, v0.z - 2 * d * nz), "mirror image about the normal");
    vc_check(vc_feqtol(len2(v), len2(v0), TOL), "reflection preserves the length");
    vc_check(vc_feqtol(v.x * nx + v.y * ny + v.z * nz, -d, TOL), "reflection flips the normal component");
}
HARNESS(vec_refract)
{
    Vec3 v = unit<Vec3>("vx", "vy", "vz"); const Vec3 v0 = v; float eta = vc_f32("eta"); vc_assume(eta > 0);
    vc_nat(eta > 0.1f && eta < 10.f);
    bool isn = vc_pick("normal", 2); bool ok; float nx, ny, nz;
    if(isn) { Normal n = unit<Normal>("nx", "ny", "nz"); nx = n.x; ny = n.y; nz = n.z; ok = v.refract(n, eta); }
    else { Vec3 n = unit<Vec3>("nx", "ny", "nz"); nx = n.x; ny = n.y; nz = n.z; ok = v.refract(n, eta); }
    float ci = v0.x * nx + v0.y * ny + v0.z * nz;
    float s2 = (1 - ci * ci) * eta * eta;
    vc_lemma(ci * ci + (v0.x * ny - v0.y * nx) * (v0.x * ny - v0.y * nx) + (v0.y * nz - v0.z * ny) * (v0.y * nz - v0.z * ny) + (v0.z * nx - v0.x * nz) * (v0.z * nx - v0.x * nz) == 1, "Lagrange identity");
    vc_lemma(ci * ci <= 1, "cosine at most one");
    vc_check(IMPLIES(!ok, same3(v, v0)), "total reflection leaves the vector untouched");
    vc_check(IMPLIES(s2 > 1.0001f, !ok), "total internal reflection is reported");
    vc_check(IMPLIES(s2 < 0.9999f, ok), "below the critical angle a refracted direction exists");
    float ct = v.x * nx + v.y * ny + v.z * nz;
    // Snell: tangential component scales by -eta; transmitted vector is on the other side of the interface plane
    float tx = v.x - ct * nx, ty = v.y - ct * ny, tz = v.z - ct * nz;
    vc_check(IMPLIES(ok, AND(vc_feqtol(tx, -eta * (v0.x - ci * nx), 1e-2f), AND(vc_feqtol(ty, -eta * (v0.y - ci * ny), 1e-2f), vc_feqtol(tz, -eta * (v0.z - ci * nz), 1e-2f)))), "Snell's law: tangential component scaled by eta");
    vc_check(IMPLIES(ok, vc_fletol(ct, 0, 1e-3f)), "the refracted vector leaves on the other side");
    vc_check(IMPLIES(ok, vc_feqtol(ct * ct + s2, 1, 1e-2f)), "the refracted vector has unit length");
}
HARNESS(point_ops)
{
    Point3 p = vpt("px", "py", "pz"), q = vpt("qx", "qy", "qz"); const Point3 p0 = p, q0 = q; Vec3 v = vvec("vx", "vy", "vz");
    uint32_t k = vc_pick("op", 6);
    if(k == 0) { vc_check(eq3(p + v, p0.x + v.x, p0.y + v.y, p0.z + v.z), "point plus vector"); vc_check(eq3(p - v, p0.x - v.x, p0.y - v.y, p0.z - v.z), "point minus vector"); }
    if(k == 1) { Vec3 d = p - q; vc_check(eq3(d, p0.x - q0.x, p0.y - q0.y, p0.z - q0.z), "difference of points"); }
    if(k == 2) { p += v; vc_check(eq3(p, p0.x + v.x, p0.y + v.y, p0.z + v.z), "in-place displacement"); p = p0; p -= v; vc_check(eq3(p, p0.x - v.x, p0.y - v.y, p0.z - v.z), "in-place negative displacement"); }
    if(k == 3) { p.max(q); vc_check(eq3(p, fmx(p0.x, q0.x), fmx(p0.y, q0.y), fmx(p0.z, q0.z)), "component maximum"); p = p0; p.min(q); vc_check(eq3(p, fmn(p0.x, q0.x), fmn(p0.y, q0.y), fmn(p0.z, q0.z)), "component minimum"); vc_check(AND(eq3(max(p0, q0), fmx(p0.x, q0.x), fmx(p0.y, q0.y), fmx(p0.z, q0.z)), eq3(min(p0, q0), fmn(p0.x, q0.x), fmn(p0.y, q0.y), fmn(p0.z, q0.z))), "free component extrema"); }
    if(k == 4) { float d = p.distance(q); Vec3 df(p0.x - q0.x, p0.y - q0.y, p0.z - q0.z); vc_nat(len2(df) < 1e4f); vc_check(AND(d >= 0, vc_feqtol(d * d, len2(df), TOL)), "distance"); vc_check(ALL(p[0] == p0.x, p[1] == p0.y, p[2] == p0.z), "indexing"); }
    if(k == 5) { float t = vc_f32("t"); Ray r(p, v); Point3 a = r.apply(t); vc_check(eq3(a, p0.x + t * v.x, p0.y + t * v.y, p0.z + t * v.z), "point along a ray"); vc_check(AND(same3(r.origin, p0), same3(r.direction, v)), "ray construction"); vc_check(r.ricochet == 0, "a new ray has not bounced"); }
    vc_check(same3(q, q0), "argument unchanged");
}
