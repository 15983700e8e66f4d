#include "vc.h"
#include "materials/shading_space.hpp"
#include "materials/bump.hpp"
#include "utility/console.hpp"
#include <cmath>
static float ab(float v) { return v < 0 ? -v : v; }
static bool near3(const Vec3& a, const Vec3& b) { return ALL(vc_feqtol(a.x, b.x, 1e-3f), vc_feqtol(a.y, b.y, 1e-3f), vc_feqtol(a.z, b.z, 1e-3f)); }
static Vec3 any(const char* n) { Vec3 v; v.x = vc_f32in("vx", -1, 1); v.y = vc_f32in("vy", -1, 1); v.z = vc_f32in("vz", -1, 1); if(!vc_symbolic()) { float l = v.length(); vc_assume(l > 1e-2f); v = v * (1.f / l); } return v; }
static float d3(const Vec3& a, const Vec3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static Vec3 N, S, V;
#ifndef VC_NATIVE
static int g_phase;
/* normalize leaves unit vectors alone (G02); here every argument is proved to be one */
extern "C" Vec3& CONTRACT(_ZN4Vec39normalizeEv)(Vec3* v)
{
    Vec3 T; T.x = N.y * S.z - N.z * S.y; T.y = N.z * S.x - N.x * S.z; T.z = N.x * S.y - N.y * S.x; g_phase++; float l = d3(*v, *v);
    float n2 = vc_name(d3(N, N)), s2 = vc_name(d3(S, S)), ns = vc_name(d3(N, S)), v2 = vc_name(d3(V, V)), G = vc_name(d3(N, N) * d3(S, S) - d3(N, S) * d3(N, S)), a = vc_name(d3(V, S)), b = vc_name(d3(V, T)), c = vc_name(d3(V, N)), L = vc_name(l);
    vc_lemma(ALL(n2 == 1, s2 == 1, ns == 0, v2 == 1), "orthonormal"); vc_by(ALL(n2 == 1, s2 == 1, ns == 0, G == n2 * s2 - ns * ns), G == 1, "Gram determinant");
    if(g_phase == 1) { vc_lemma(l == d3(N, N) * d3(S, S) - d3(N, S) * d3(N, S), "length of the bitangent"); vc_by(AND(L == G, G == 1), L == 1, "length of the bitangent"); }
    if(g_phase == 2) { vc_lemma(d3(V, V) * (d3(N, N) * d3(S, S) - d3(N, S) * d3(N, S)) == d3(V, S) * d3(V, S) * d3(N, N) + d3(V, N) * d3(V, N) * d3(S, S) - 2 * d3(V, S) * d3(V, N) * d3(N, S) + d3(V, T) * d3(V, T), "expansion"); vc_lemma(L == a * a + b * b + c * c, "coordinates");
        vc_by(ALL(v2 * G == a * a * n2 + c * c * s2 - 2 * a * c * ns + b * b, n2 == 1, s2 == 1, ns == 0, v2 == 1, G == 1, L == a * a + b * b + c * c), L == 1, "length of the coordinates"); }
    if(g_phase == 3)
    {
        float w[3], t[3], Vi[3] = {V.x, V.y, V.z}, Ni[3] = {N.x, N.y, N.z}, Si[3] = {S.x, S.y, S.z}, Ti[3] = {T.x, T.y, T.z}, vi[3] = {v->x, v->y, v->z};
        for(int i = 0; i < 3; i++) { t[i] = vc_name(Ti[i]); w[i] = vc_name(vi[i]); } vc_lemma(L == w[0] * w[0] + w[1] * w[1] + w[2] * w[2], "length");
        for(int i = 0; i < 3; i++) vc_lemma(w[i] == a * Si[i] + b * t[i] + c * Ni[i], "back");
        for(int i = 0; i < 3; i++)
        {
            vc_lemma(Vi[i] * (d3(N, N) * d3(S, S) - d3(N, S) * d3(N, S)) == d3(V, S) * (d3(N, N) * Si[i] - d3(N, S) * Ni[i]) + d3(V, N) * (d3(S, S) * Ni[i] - d3(N, S) * Si[i]) + d3(V, T) * Ti[i], "expansion");
            vc_by(ALL(Vi[i] * G == a * (n2 * Si[i] - ns * Ni[i]) + c * (s2 * Ni[i] - ns * Si[i]) + b * t[i], n2 == 1, s2 == 1, ns == 0, G == 1, w[i] == a * Si[i] + b * t[i] + c * Ni[i]), w[i] == Vi[i], "back to the same direction");
        }
        vc_by(ALL(w[0] == V.x, w[1] == V.y, w[2] == V.z, v2 == 1, L == w[0] * w[0] + w[1] * w[1] + w[2] * w[2], v2 == V.x * V.x + V.y * V.y + V.z * V.z), L == 1, "still a unit vector");
    }
    vc_check(L == 1, "a unit vector is normalised"); return *v;
}
#endif
HARNESS(mix_frame)
{
    HitPoint h; Vec3 v = any("v"), s = any("s"), n = any("n");
    if(!vc_symbolic()) { s = cross(n, s); vc_assume(s.length() > 0.01f); s.normalize(); }
    else vc_assume(ALL(d3(s, s) == 1, d3(n, n) == 1, d3(v, v) == 1, d3(n, s) == 0));
    N = n; S = s; V = v; Vec3 t; t.x = n.y * s.z - n.z * s.y; t.y = n.z * s.x - n.x * s.z; t.z = n.x * s.y - n.y * s.x;
    h.normal_h.x = n.x; h.normal_h.y = n.y; h.normal_h.z = n.z; h.dpdu = s; ShadingSpace m; Normal o; Bump b; b.bump(&h, &m, &o); vc_check(ALL(o.x == n.x, o.y == n.y, o.z == n.z), "the shading normal is that of the surface");
    vc_check(ALL(near3(m.s, s), m.n.x == n.x, m.n.y == n.y, m.n.z == n.z), "tangent and normal are those of the hit"); vc_check(near3(m.t, t), "right-handed frame");
    Vec3 a = m.to_shading(v); vc_check(ALL(vc_feqtol(a.x, d3(v, s), 1e-3f), vc_feqtol(a.y, d3(v, t), 1e-3f), vc_feqtol(a.z, d3(v, n), 1e-3f)), "coordinates along tangent, bitangent and normal"); vc_check(vc_feqtol(d3(a, a), 1, 1e-3f), "unit directions stay unit");
    Vec3 w = m.to_world(a); vc_check(near3(w, v), "going to the shading space and back changes nothing");
}
