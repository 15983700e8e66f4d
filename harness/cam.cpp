#include "geo.h"
#include "cameras/camera_perspective.hpp"
#include "cameras/camera_orthographic.hpp"
#include "cameras/camera360.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
/* the camera frame: left, up, view direction and position of the look-at matrix (rigid: proved in G03) */
static Vec3 L, U, D; static Point3 pos; static Vec3 n_v[8], n_u[8]; static float n_k[8]; static int n_n; static float g_t, g_fov;
#ifndef VC_NATIVE
extern "C" void CONTRACT(_ZN7Matrix418set_lookAt_inverseERK6Point3S2_RK4Vec3)(Matrix4* m, const Point3& p, const Point3&, const Vec3&)
{
    float v[16] = {L.x, U.x, D.x, p.x, L.y, U.y, D.y, p.y, L.z, U.z, D.z, p.z, 0, 0, 0, 1}; *m = Matrix4(v);
}
extern "C" void CONTRACT(_ZN4Vec39normalizeEv)(Vec3* v) { vc_check(len2(*v) > 0, "a non-zero vector is normalised"); float k = vc_f32("k"), x = k * v->x, y = k * v->y, z = k * v->z; vc_assume(ALL(k > 0, x * x + y * y + z * z > 0.9999f, x * x + y * y + z * z < 1.0001f)); n_u[n_n & 7] = *v; n_k[n_n++ & 7] = k; v->x = x; v->y = y; v->z = z; }
extern "C" Vec3 CONTRACT(_Z9normalizeRK4Vec3)(const Vec3& u) { Vec3 v = u; vc_check(len2(v) > 0, "a non-zero vector is normalised"); float k = vc_f32("k"), x = k * v.x, y = k * v.y, z = k * v.z; vc_assume(ALL(k > 0, x * x + y * y + z * z > 0.9999f, x * x + y * y + z * z < 1.0001f)); n_u[n_n & 7] = v; n_k[n_n & 7] = k; n_v[n_n++ & 7] = Vec3(x, y, z); return Vec3(x, y, z); }
extern "C" float CONTRACT(tanf)(float x) { vc_check(x == g_fov / 2.f, "the tangent of half the field of view is used"); return g_t; }
#endif
static Point3 at; static Vec3 up; static int w, h; static Sample s;
static void scene()
{
    pos = vpt("px", "py", "pz"); at = vpt("tx", "ty", "tz"); up = unit<Vec3>("ux", "uy", "uz"); w = (int)vc_u32in("w", 1, 65535); h = (int)vc_u32in("h", 1, 65535); s.posx = vc_f32("sx"); s.posy = vc_f32("sy");
    if(vc_symbolic()) { L = vvec("lx", "ly", "lz"); U = vvec("vx", "vy", "vz"); D = vvec("dx", "dy", "dz"); vc_assume(ALL(len2(L) == 1, len2(U) == 1, len2(D) == 1, dot3(L, U) == 0, dot3(L, D) == 0, dot3(U, D) == 0)); }
    else { Vec3 d = at - pos; Vec3 c = cross(up, d); vc_assume(len2(d) > 1e-2f && len2(d) < 1e6f && len2(pos) < 1e4f && len2(c) > 1e-2f * len2(d)); Matrix4 m; m.set_lookAt_inverse(pos, at, up); L = Vec3(m.m00, m.m10, m.m20); U = Vec3(m.m01, m.m11, m.m21); D = Vec3(m.m02, m.m12, m.m22); vc_assume(s.posx >= -100 && s.posx <= 70000 && s.posy >= -100 && s.posy <= 70000); w = w % 4096 + 1; h = h % 4096 + 1; }
}
/* the camera-space coordinates of a world vector */
static bool dirs(const Vec3& d, int i, float a, float b, float c) // d is a positive multiple of a L + b U + c D
{
    float x = dot3(L, d), y = dot3(U, d), z = dot3(D, d);
    if(vc_symbolic())
    {
        Vec3 v = n_v[i], u = n_u[i]; bool rigid = ALL(len2(L) == 1, len2(U) == 1, len2(D) == 1, dot3(L, U) == 0, dot3(L, D) == 0, dot3(U, D) == 0); bool sum = ALL(d.x == v.x * L.x + v.y * U.x + v.z * D.x, d.y == v.x * L.y + v.y * U.y + v.z * D.y, d.z == v.x * L.z + v.y * U.z + v.z * D.z);
        vc_lemma(sum, "the direction in the camera frame"); vc_lemma(ALL(u.x == a * u.z, u.y == b * u.z, u.z > 0), "the camera-space direction");
        vc_by(AND(rigid, sum), x == v.x, "left component"); vc_by(AND(rigid, sum), y == v.y, "up component"); vc_by(AND(rigid, sum), z == v.z, "forward component");
        float k = n_k[i], A = vc_name(a), B = vc_name(b), X = vc_name(x), Y = vc_name(y), Z = vc_name(z), Uz = vc_name(u.z); vc_lemma(ALL(v.x == k * u.x, v.y == k * u.y, v.z == k * u.z), "the normalised direction");
        vc_by(ALL(u.x == a * u.z, u.y == b * u.z, A == a, B == b, Uz == u.z, x == v.x, X == x, v.x == k * u.x), X == k * A * Uz, "scaled left component"); vc_by(ALL(u.x == a * u.z, u.y == b * u.z, A == a, B == b, Uz == u.z, y == v.y, Y == y, v.y == k * u.y), Y == k * B * Uz, "scaled up component"); vc_by(ALL(Uz == u.z, z == v.z, Z == z, v.z == k * u.z), Z == k * Uz, "scaled forward component");
        float G = vc_name(k * Uz), GA = vc_name(G * A), GB = vc_name(G * B); vc_by(ALL(u.z > 0, k > 0, Uz == u.z, G == k * Uz), G > 0, "positive"); vc_by(AND(X == k * A * Uz, G == k * Uz), X == G * A, "regrouped"); vc_by(AND(Y == k * B * Uz, G == k * Uz), Y == G * B, "regrouped"); vc_by(AND(Z == k * Uz, G == k * Uz), Z == G, "regrouped"); vc_by(AND(X == G * A, Y == G * B), X * B == Y * A, "proportional"); vc_by(ALL(X == G * A, Y == G * B, Z == G, G > 0), ALL(Y * 1 == Z * B, X * 1 == Z * A, Z > 0), "proportional"); return ALL(X * B == Y * A, Y * 1 == Z * B, X * 1 == Z * A, Z > 0);
    }
    float n = vc_symbolic() ? 1 : 1 / sqrtf(a * a + b * b + c * c); a *= n; b *= n; c *= n;
    return ALL(vc_feqtol(x * b, y * a, TOL), vc_feqtol(y * c, z * b, TOL), vc_feqtol(x * c, z * a, TOL), z > 0);
}
static bool same(const Vec3& a, const Vec3& b) { return ALL(vc_feqtol(a.x, b.x, TOL), vc_feqtol(a.y, b.y, TOL), vc_feqtol(a.z, b.z, TOL)); }
static bool same(const Point3& a, const Point3& b) { return ALL(vc_feqtol(a.x, b.x, TOL), vc_feqtol(a.y, b.y, TOL), vc_feqtol(a.z, b.z, TOL)); }
HARNESS(cam_ortho)
{
    scene(); CameraOrthographic c(&pos, &at, &up, w, h); Ray r, rx, ry, q, qx, qy; float ar = (float)w / (float)h, hw = ar > 1 ? ar : 1.f, hh = ar > 1 ? 1.f : 1.f / ar;
    c.CameraOrthographic::create_ray(&s, &r, &rx, &ry); c.Camera::create_ray(&s, &q); Sample sx = s, sy = s; sx.posx += 1; sy.posy += 1; c.Camera::create_ray(&sx, &qx); c.Camera::create_ray(&sy, &qy);
    float a = -hw + 2 * hw * s.posx / w, b = hh - 2 * hh * s.posy / h;
    vc_check(eq3(q.origin, pos.x + a * L.x + b * U.x, pos.y + a * L.y + b * U.y, pos.z + a * L.z + b * U.z), "the ray starts on the image plane point of the sample");
    vc_check(eq3(q.direction, D.x, D.y, D.z), "the ray follows the view direction");
    vc_check(AND(same(r.origin, q.origin), same(r.direction, q.direction)), "both ray generators agree");
    vc_check(AND(same(rx.origin, qx.origin), same(rx.direction, qx.direction)), "the first auxiliary ray is that of the neighbouring pixel in x");
    vc_check(AND(same(ry.origin, qy.origin), same(ry.direction, qy.direction)), "the second auxiliary ray is that of the neighbouring pixel in y");
}
static void pano(const Vec3& d, int i, const Sample& s, const char* what)
{
    float th = (float)3.14159265358979323846 * s.posy * (1.f / h), ph = (float)6.28318530717958647693 * s.posx * (1.f / w); float a = sinf(th) * cosf(ph), b = cosf(th), c = sinf(th) * sinf(ph);
    if(vc_symbolic())
    {
        Vec3 u = n_u[i]; float k = n_k[i], A = vc_name(a), B = vc_name(b), C = vc_name(c); bool rigid = ALL(len2(L) == 1, len2(U) == 1, len2(D) == 1, dot3(L, U) == 0, dot3(L, D) == 0, dot3(U, D) == 0); bool sum = ALL(u.x == A * L.x + B * U.x + C * D.x, u.y == A * L.y + B * U.y + C * D.y, u.z == A * L.z + B * U.z + C * D.z), sc = ALL(d.x == k * u.x, d.y == k * u.y, d.z == k * u.z);
        vc_lemma(sum, "the direction in the camera frame"); vc_lemma(sc, "the normalised direction");
        float x = vc_name(dot3(L, u)), y = vc_name(dot3(U, u)), z = vc_name(dot3(D, u)); vc_by(ALL(rigid, sum, x == dot3(L, u)), x == A, "left component"); vc_by(ALL(rigid, sum, y == dot3(U, u)), y == B, "up component"); vc_by(ALL(rigid, sum, z == dot3(D, u)), z == C, "forward component");
        vc_by(AND(x == dot3(L, u), sc), dot3(L, d) == k * x, "left component"); vc_by(AND(y == dot3(U, u), sc), dot3(U, d) == k * y, "up component"); vc_by(AND(z == dot3(D, u), sc), dot3(D, d) == k * z, "forward component");
        vc_check(ALL(dot3(L, d) == k * A, dot3(U, d) == k * B, dot3(D, d) == k * C, k > 0), what); return;
    }
    vc_check(ALL(vc_feqtol(dot3(L, d), a, TOL), vc_feqtol(dot3(U, d), b, TOL), vc_feqtol(dot3(D, d), c, TOL)), what);
}
HARNESS(cam_360)
{
    scene(); Camera360 c(&pos, &at, &up, w, h); Ray r, rx, ry, q; vc_nat(fabsf(s.posx) < 3 * w && fabsf(s.posy) < 3 * h);
    if(vc_symbolic()) { float th = (float)3.14159265358979323846 * s.posy * (1.f / h); (void)th; }
    n_n = 0; c.Camera::create_ray(&s, &r, &rx, &ry); c.Camera::create_ray(&s, &q); Sample sx = s, sy = s; sx.posx += 1; sy.posy += 1;
    vc_check(ALL(eq3(q.origin, pos.x, pos.y, pos.z), same(r.origin, q.origin), same(rx.origin, q.origin), same(ry.origin, q.origin)), "rays start at the camera"); vc_check(ALL(near1(len2(q.direction)), near1(len2(r.direction)), near1(len2(rx.direction)), near1(len2(ry.direction))), "ray directions are unit vectors");
    pano(r.direction, 0, s, "rows of the image are latitudes and columns are longitudes"); pano(rx.direction, 1, sx, "the first auxiliary ray is that of the neighbouring pixel in x"); pano(ry.direction, 2, sy, "the second auxiliary ray is that of the neighbouring pixel in y"); pano(q.direction, 3, s, "both ray generators agree");
}
HARNESS(cam_persp)
{
    scene(); float fov = vc_f32in("fov", 0.01f, 3.1f), t = vc_symbolic() ? vc_f32("tan") : tanf(fov / 2.f); vc_assume(AND(t > 0, t < 30.f)); g_t = t; g_fov = fov; vc_nat(t > 0.02f); CameraPerspective c(&pos, &at, &up, w, h, fov); Ray r, rx, ry, q, qx, qy; float ar = (float)w / (float)h, hw = ar > 1 ? ar : 1.f, hh = ar > 1 ? 1.f : 1.f / ar;
    c.CameraPerspective::create_ray(&s, &r, &rx, &ry); c.Camera::create_ray(&s, &q); Sample sx = s, sy = s; sx.posx += 1; sy.posy += 1; c.Camera::create_ray(&sx, &qx); c.Camera::create_ray(&sy, &qy);
    float a = -hw + 2 * hw * s.posx / w, b = hh - 2 * hh * s.posy / h, ax = -hw + 2 * hw * sx.posx / w, by = hh - 2 * hh * sy.posy / h;
    vc_check(ALL(eq3(q.origin, pos.x, pos.y, pos.z), same(r.origin, q.origin), same(rx.origin, q.origin), same(ry.origin, q.origin)), "rays start at the camera");
    vc_check(near1(len2(q.direction)), "ray directions are unit vectors"); vc_check(AND(near1(len2(rx.direction)), near1(len2(ry.direction))), "ray directions are unit vectors");
    vc_check(dirs(q.direction, 3, a * t, b * t, 1), "the ray passes through the image plane point of the sample");
    vc_check(dirs(r.direction, 0, a * t, b * t, 1), "both ray generators agree");
    vc_check(dirs(rx.direction, 1, ax * t, b * t, 1), "the first auxiliary ray is that of the neighbouring pixel in x");
    vc_check(dirs(ry.direction, 2, a * t, by * t, 1), "the second auxiliary ray is that of the neighbouring pixel in y");
}
