#ifndef VC_BOUNDS_H
#define VC_BOUNDS_H
#include "geo.h"
#include "geometry/AABB.hpp"
static Matrix4 vmat() { static const char* N[16] = {"m0","m1","m2","m3","m4","m5","m6","m7","m8","m9","ma","mb","mc","md","me","mf"}; float v[16]; for(int i = 0; i < 12; i++) v[i] = vc_f32(N[i]); v[12] = v[13] = v[14] = 0; v[15] = 1; return Matrix4(v); }
// p in the box [lo,hi]: its image lies between the images of the corners, axis by axis
static void inworld(const AABB& W, const Matrix4& M, const Point3& p, const Point3& lo, const Point3& hi, const char* what)
{
    uint32_t ax = vc_pick("axis", 3); const float* mm = (&M.m00) + 4 * ax; float m[3] = {mm[0], mm[1], mm[2]}, cl[3], ch[3]; 
    for(int j = 0; j < 3; j++) { bool neg = vc_split(m[j] < 0); cl[j] = neg ? hi[j] : lo[j]; ch[j] = neg ? lo[j] : hi[j]; vc_lemma(AND(m[j] * (p[j] - cl[j]) >= -1e-3f, m[j] * (ch[j] - p[j]) >= -1e-3f), "monotone in each coordinate"); if(vc_symbolic()) vc_lemma(AND(m[j] * (p[j] - cl[j]) >= 0, m[j] * (ch[j] - p[j]) >= 0), "monotone"); }
    float L = m[0] * cl[0] + m[1] * cl[1] + m[2] * cl[2] + mm[3], H = m[0] * ch[0] + m[1] * ch[1] + m[2] * ch[2] + mm[3];
    if(vc_symbolic()) vc_lemma(AND(W.bounds[0][ax] <= L, W.bounds[1][ax] >= H), "the extreme corner is inside");
    Point3 q = M * p; vc_check(AND(vc_fletol(W.bounds[0][ax], q[ax], 1e-2f), vc_fletol(q[ax], W.bounds[1][ax], 1e-2f)), what);
}
#endif
