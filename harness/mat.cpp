#include "geo.h"
#include "geometry/ray.hpp"
struct M16 { float v[16]; };
static void ld(const Matrix4& m, float* v) { m.to_array(v); }
static Matrix4 vmat(char p, M16* raw = NULL)
{
    static char n[4]; M16 r;
    for(int i = 0; i < 16; i++) { char nm[4] = {p, (char)('a' + i), 0, 0}; r.v[i] = vc_f32(nm); }
    if(raw) *raw = r;
    return Matrix4(r.v);
}
static bool feq(float a, float b) { return vc_feqtol(a, b, 5e-3f); }
static bool eqm(const Matrix4& m, const float* v)
{
    const float* p = &m.m00; bool r = true;
    for(int i = 0; i < 16; i++) r = vc_and(r, feq(p[i], v[i]));
    return r;
}
static void mulv(const float* a, const float* b, float* c) { for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) { float s = 0; for(int k = 0; k < 4; k++) s += a[4 * i + k] * b[4 * k + j]; c[4 * i + j] = s; } }
/* cofactor-expansion determinant, written independently */
static float det3(float a, float b, float c, float d, float e, float f, float g, float h, float i) { return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g); }
static float det4(const float* m)
{
    return m[0] * det3(m[5], m[6], m[7], m[9], m[10], m[11], m[13], m[14], m[15]) - m[1] * det3(m[4], m[6], m[7], m[8], m[10], m[11], m[12], m[14], m[15])
         + m[2] * det3(m[4], m[5], m[7], m[8], m[9], m[11], m[12], m[13], m[15]) - m[3] * det3(m[4], m[5], m[6], m[8], m[9], m[10], m[12], m[13], m[14]);
}
HARNESS(mat_inverse)
{
    M16 r; Matrix4 m = vmat('m', &r), m0 = m; Matrix4 o; float* p = &o.m00; for(int i = 0; i < 16; i++) p[i] = 3.f + i;
    float d = det4(r.v);
    vc_nat(d > 0.1f || d < -0.1f || d == 0);
    bool ok = m.inverse(&o);
    vc_check(IMPLIES(ok, d != 0), "a singular matrix is never reported as inverted");
    vc_check(IMPLIES(OR(d > 1e-4f, d < -1e-4f), ok), "a matrix with a clearly non-zero determinant is inverted");
    float pr[16]; mulv(r.v, p, pr);
    if(!vc_symbolic()) { float mx = 0; for(int i = 0; i < 16; i++) { if(p[i] > mx) mx = p[i]; if(-p[i] > mx) mx = -p[i]; } vc_nat(mx < 1e3f); }
    if(ok) { for(int i = 0; i < 16; i++) vc_check(feq(pr[i], i % 5 == 0 ? 1.f : 0.f), "matrix times its inverse is the identity"); }
    else { for(int i = 0; i < 16; i++) vc_check(p[i] == 3.f + i, "a failed inversion leaves the output untouched"); }
    vc_check(eqm(m, r.v), "inversion leaves the matrix unchanged");
}
HARNESS(mat_arith)
{
    M16 a, b; Matrix4 A_ = vmat('a', &a), B_ = vmat('b', &b); Matrix4 o; float e[16];
    uint32_t op = vc_pick("op", 3), form = vc_pick("form", 3);
    for(int i = 0; i < 16; i++) e[i] = op == 0 ? a.v[i] + b.v[i] : a.v[i] - b.v[i];
    if(op == 2) mulv(a.v, b.v, e);
    if(form == 0) o = op == 0 ? A_ + B_ : (op == 1 ? A_ - B_ : A_ * B_);
    else if(form == 1) { o = A_; if(op == 0) o += B_; else if(op == 1) o -= B_; else o *= B_; }
    else { if(op == 0) sum(&A_, &B_, &o); else if(op == 1) sub(&A_, &B_, &o); else mul(&A_, &B_, &o); }
    vc_check(eqm(o, e), "matrix sum, difference and product");
    vc_check(AND(eqm(A_, a.v), eqm(B_, b.v)), "operands unchanged");
}
HARNESS(mat_self)
{
    M16 a; Matrix4 A_ = vmat('a', &a); float e[16]; uint32_t op = vc_pick("op", 3);
    for(int i = 0; i < 16; i++) e[i] = op == 0 ? a.v[i] + a.v[i] : 0;
    if(op == 2) mulv(a.v, a.v, e);
    if(op == 0) A_ += A_; else if(op == 1) A_ -= A_; else A_ *= A_;
    vc_check(eqm(A_, e), "in-place operators work when both operands are the same matrix");
}
HARNESS(mat_build)
{
    M16 a; Matrix4 m = vmat('a', &a), t; float z[16]; for(int i = 0; i < 16; i++) z[i] = 0;
    m.transpose(&t); float e[16]; for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) e[4 * i + j] = a.v[4 * j + i];
    vc_check(AND(eqm(t, e), eqm(m, a.v)), "transpose swaps rows and columns");
    float out[16]; m.to_array(out); vc_check(eqm(m, out), "to_array is the inverse of construction");
    vc_check(m == m, "a matrix equals itself"); vc_check(!(m != m), "a matrix is not unequal to itself");
    Matrix4 n = vmat('n'); vc_nat(false || vc_symbolic() || !(m == n)); vc_check((m == n) == (n == m), "equality is symmetric"); vc_check((m != n) == !(m == n), "inequality negates equality");
    uint32_t k = vc_pick("diff", 16); float dl = vc_f32("delta"); vc_assume(OR(dl > 0.01f, dl < -0.01f)); Matrix4 q = m; (&q.m00)[k] += dl; vc_check(m != q, "matrices differing in one entry are unequal");
    t.set_zero(); vc_check(eqm(t, z), "zero matrix");
    z[0] = z[5] = z[10] = z[15] = 1; t = m; t.set_identity(); vc_check(eqm(t, z), "identity matrix");
    Vec3 v = vvec("vx", "vy", "vz"); Point3 p = vpt("px", "py", "pz"); Vec3 d = vvec("dx", "dy", "dz"); float s = vc_f32("s");
    t = m; t.set_translation(v); vc_check(eq3(t * p, p.x + v.x, p.y + v.y, p.z + v.z), "translation moves points"); vc_check(eq3(t * d, d.x, d.y, d.z), "translation does not move directions");
    vc_check(eq3(t.get_translation(), v.x, v.y, v.z), "translation can be read back");
    t = m; t.set_scale(v); vc_check(eq3(t * p, p.x * v.x, p.y * v.y, p.z * v.z), "scale multiplies points component-wise"); vc_check(eq3(t * d, d.x * v.x, d.y * v.y, d.z * v.z), "scale multiplies directions component-wise");
    t = m; t.set_scale(s); vc_check(eq3(t * p, p.x * s, p.y * s, p.z * s), "uniform scale multiplies points");
    vc_check(eq3(t.get_scale(), s < 0 ? -s : s, s < 0 ? -s : s, s < 0 ? -s : s), "scale can be read back up to sign");
}
HARNESS(mat_rotate)
{
    M16 a; Matrix4 t = vmat('a', &a); float al = vc_f32in("al", -100, 100); uint32_t ax = vc_pick("axis", 3); Vec3 d = vvec("dx", "dy", "dz"); Point3 p = vpt("px", "py", "pz");
    if(ax == 0) t.set_rotate_x(al); else if(ax == 1) t.set_rotate_y(al); else t.set_rotate_z(al);
    float s = sinf(al), c = cosf(al); Vec3 r = t * d; Point3 q = t * p; const float* v = &d.x; const float* w = &r.x;
    uint32_t i = (ax + 1) % 3, j = (ax + 2) % 3;
    vc_check(vc_feqtol(w[ax], v[ax], TOL), "rotation keeps the coordinate along its axis");
    vc_check(AND(vc_feqtol(w[i], c * v[i] - s * v[j], TOL), vc_feqtol(w[j], s * v[i] + c * v[j], TOL)), "counter-clockwise rotation by the given angle");
    vc_check(vc_feqtol(len2(r), len2(d), TOL), "rotation preserves length");
    vc_check(vc_feqtol(len2(q), len2(p), TOL), "rotation preserves the distance from the origin");
    Matrix4 inv; bool ok = t.inverse(&inv); vc_check(ok, "rotations are invertible"); 
    Vec3 b = inv * r; vc_check(eq3(b, d.x, d.y, d.z), "inverse rotation undoes the rotation");
}
HARNESS(mat_apply)
{
    M16 a; Matrix4 m = vmat('a', &a); const float* v = a.v; Point3 p = vpt("px", "py", "pz"); Vec3 d = vvec("dx", "dy", "dz"); Normal n = vnor("nx", "ny", "nz");
    float w = v[12] * p.x + v[13] * p.y + v[14] * p.z + v[15]; vc_assume(w != 0); vc_nat(w > 0.1f || w < -0.1f);
    Point3 q = m * p;
    vc_check(AND(vc_feqtol(q.x * w, v[0] * p.x + v[1] * p.y + v[2] * p.z + v[3], 1e-2f), AND(vc_feqtol(q.y * w, v[4] * p.x + v[5] * p.y + v[6] * p.z + v[7], 1e-2f), vc_feqtol(q.z * w, v[8] * p.x + v[9] * p.y + v[10] * p.z + v[11], 1e-2f))), "points transform homogeneously (divided by w)");
    vc_check(eq3(m * d, v[0] * d.x + v[1] * d.y + v[2] * d.z, v[4] * d.x + v[5] * d.y + v[6] * d.z, v[8] * d.x + v[9] * d.y + v[10] * d.z), "directions transform by the 3x3 part");
    Ray r(p, d); r.ricochet = 4; Ray s = m * r; Vec3 md = m * d;
    vc_check(AND(same3(s.origin, q), same3(s.direction, md)), "rays transform origin as a point and direction as a vector");
    Normal tn = transform_normal(n, &m);
    vc_check(eq3(tn, v[0] * n.x + v[4] * n.y + v[8] * n.z, v[1] * n.x + v[5] * n.y + v[9] * n.z, v[2] * n.x + v[6] * n.y + v[10] * n.z), "normals transform by the transposed inverse");
    // orthogonality is preserved: with m the inverse of k, (k*d).(m^T n) = d.n
    Vec3 e = m * d; Normal un = transform_normal(n, &m);
    vc_check(vc_feqtol(dot3(e, n), dot3(d, un), 1e-2f), "a transformed normal stays perpendicular to the transformed surface");
}
#ifndef VC_NATIVE
/* contract of Vec3::normalize as proved in G02: positive scaling to (nearly) unit length; calling it on zero is an error */
extern "C" Vec3* CONTRACT(_ZN4Vec39normalizeEv)(Vec3* self)
{
    float l = len2(*self); vc_check(l > 0, "normalize is called on a non-zero vector");
    float s = vc_f32("scale"); vc_assume(s > 0); vc_assume(AND(s * s * l > 0.99999f, s * s * l < 1.00001f));
    self->x *= s; self->y *= s; self->z *= s; vc_assume(AND(len2(*self) > 0.99999f, len2(*self) < 1.00001f));
    return self;
}
#endif
HARNESS(mat_lookat)
{
    Point3 pos = vpt("px", "py", "pz"), at = vpt("tx", "ty", "tz"); Vec3 up = unit<Vec3>("ux", "uy", "uz"); M16 a; Matrix4 m = vmat('a', &a);
    float dx = at.x - pos.x, dy = at.y - pos.y, dz = at.z - pos.z, l = dx * dx + dy * dy + dz * dz;
    float cx = up.y * dz - up.z * dy, cy = up.z * dx - up.x * dz, cz = up.x * dy - up.y * dx; float c2 = cx * cx + cy * cy + cz * cz;
    vc_assume(l > 0); vc_assume(c2 > 0); vc_nat(l > 1e-2f && c2 > 1e-2f * l);
    m.set_lookAt_inverse(pos, at, up);
    Vec3 L(m.m00, m.m10, m.m20), U(m.m01, m.m11, m.m21), D(m.m02, m.m12, m.m22);
    vc_check(AND(m.m03 == pos.x, AND(m.m13 == pos.y, m.m23 == pos.z)), "the camera sits at its position");
    vc_check(ALL(m.m30 == 0, m.m31 == 0, m.m32 == 0, m.m33 == 1), "affine bottom row");
    vc_lemma(near1(len2(D)), "view direction has unit length");
    vc_check(AND(vc_feqtol(D.y * dz, D.z * dy, TOL), AND(vc_feqtol(D.z * dx, D.x * dz, TOL), vc_feqtol(D.x * dy, D.y * dx, TOL))), "view direction is parallel to the line to the target");
    vc_check(dot3(D, Vec3(dx, dy, dz)) >= 0, "view direction points towards the target");
    vc_lemma(vc_feqtol(dot3(L, D), 0, TOL), "left axis is perpendicular to the view direction");
    vc_check(vc_feqtol(dot3(L, up), 0, TOL), "left axis is perpendicular to the up vector");
    vc_lemma(near1(len2(L)), "left axis has unit length");
    vc_check(AND(vc_feqtol(dot3(U, D), 0, TOL), vc_feqtol(dot3(U, L), 0, TOL)), "up axis is perpendicular to the other two");
    vc_lemma(vc_feqtol(len2(U), len2(D) * len2(L) - dot3(D, L) * dot3(D, L), TOL), "Lagrange identity");
    vc_check(near1(len2(U)), "up axis has unit length");
    float tx = up.y * D.z - up.z * D.y, ty = up.z * D.x - up.x * D.z, tz = up.x * D.y - up.y * D.x;
    vc_lemma(vc_feqtol(dot3(U, up), L.x * tx + L.y * ty + L.z * tz, TOL), "up component as a triple product");
    vc_check(dot3(U, up) >= (vc_symbolic() ? 0.f : -1e-3f), "the camera is not upside down");
}
