#ifndef VC_GEO_H
#define VC_GEO_H
#include "vc.h"
#include "geometry/vec2.hpp"
#include "geometry/vec3.hpp"
#include "geometry/point3.hpp"
#include "geometry/matrix4.hpp"
#include <cmath>
static inline Point3 vpt(const char* x, const char* y, const char* z) { float a = vc_f32(x), b = vc_f32(y), c = vc_f32(z); return Point3(a, b, c); }
static inline Vec3 vvec(const char* x, const char* y, const char* z) { float a = vc_f32(x), b = vc_f32(y), c = vc_f32(z); return Vec3(a, b, c); }
static inline Normal vnor(const char* x, const char* y, const char* z) { float a = vc_f32(x), b = vc_f32(y), c = vc_f32(z); return Normal(a, b, c); }
#define TOL 2e-3f
template<typename A> static inline bool eq3(const A& a, float x, float y, float z) { return ALL(vc_feqtol(a.x, x, TOL), vc_feqtol(a.y, y, TOL), vc_feqtol(a.z, z, TOL)); }
template<typename A, typename B> static inline bool same3(const A& a, const B& b) { return ALL(a.x == b.x, a.y == b.y, a.z == b.z); }
template<typename A> static inline float len2(const A& a) { return a.x * a.x + a.y * a.y + a.z * a.z; }
template<typename A, typename B> static inline float dot3(const A& a, const B& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static inline float fmn(float a, float b) { return a < b ? a : b; }
static inline float fmx(float a, float b) { return a > b ? a : b; }
static bool near1(float x) { return vc_symbolic() ? AND(x > 0.9999f, x < 1.0001f) : vc_feqtol(x, 1, TOL); }
/* a unit vector (exactly, over the reals; natively obtained by normalising) */
template<typename V> static inline V unit(const char* x, const char* y, const char* z)
{
    float a = vc_f32(x), b = vc_f32(y), c = vc_f32(z);
    float l = a * a + b * b + c * c;
    if(vc_symbolic()) vc_assume(l == 1.f);
    else { vc_assume(l > 1e-6f && l < 1e12f); float i = 1.f / sqrtf(l); a *= i; b *= i; c *= i; }
    return V(a, b, c);
}
#endif
