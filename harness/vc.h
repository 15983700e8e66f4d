/* Contract harness vocabulary. In the verifier (VC_SYMBOLIC) these are interpreted by the VC generator:
   vc_f32/... introduce universally quantified inputs, vc_assume is a requires clause, vc_check an ensures
   clause. Natively the same harness runs against the real code with concrete inputs (replay / search). */
#ifndef VC_H
#define VC_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint8_t vc_u8(const char* n); uint16_t vc_u16(const char* n); uint32_t vc_u32(const char* n); uint64_t vc_u64(const char* n);
bool vc_bool(const char* n);
float vc_f32(const char* n);        /* any finite float */
float vc_f32any(const char* n);     /* any float including inf/nan */
float vc_f32in(const char* n, float lo, float hi);
double vc_f64(const char* n);
uint32_t vc_u32in(const char* n, uint32_t lo, uint32_t hi);
uint32_t vc_pick(const char* n, uint32_t k); /* 0..k-1, explored one by one */
void vc_assume(bool c);
void vc_check(bool c, const char* name);
bool vc_symbolic();                 /* true in the verifier */
bool vc_and(bool a, bool b); bool vc_or(bool a, bool b); bool vc_implies(bool a, bool b);
bool vc_split(bool c);              /* case split */
/* equality/order on floats: exact in the verifier, with a relative+absolute tolerance natively */
bool vc_feqtol(float a, float b, float tol);
bool vc_fletol(float a, float b, float tol);
void vc_lemma(bool c, const char* name); /* proof step: proved, then available to later obligations */
void vc_by(bool premise, bool c, const char* name); /* proof step from the stated (established) premises only */
float vc_name(float v);              /* names a value in proofs; identity natively */
void vc_nat(bool c);                 /* well-conditioned filter for native runs only; no effect in the verifier */
bool vc_replaying();                 /* native replay of a solver model */
void vc_note(const char* s);
void vc_debug(uint64_t x);
/* symbolic arrays of objects (no effect natively): pointer fields equal to the prototype's / pointing into base */
void vc_protos(void* arr, uint64_t n, uint64_t esz, const void* proto);
void vc_ptrarray(void* arr, uint64_t esz, uint64_t field, void* base, uint64_t stride, uint64_t count);
void vc_inv(bool c, const char* name);  /* loop contracts (vcloop_ functions): invariant clause */
void vc_variant(int64_t n);            /* decreasing non-negative measure */
#ifdef __cplusplus
}
#define AND vc_and
#define OR vc_or
#define IMPLIES vc_implies
template<typename... T> static inline bool vc_all(bool a, T... r);
static inline bool vc_all(bool a) { return a; }
template<typename... T> static inline bool vc_all(bool a, T... r) { return vc_and(a, vc_all(r...)); }
#define ALL vc_all
static inline bool vc_any(bool a) { return a; }
template<typename... T> static inline bool vc_any(bool a, T... r) { return vc_or(a, vc_any(r...)); }
#define ANY vc_any
#ifdef VC_NATIVE
struct VcReg { VcReg(const char* n, void (*f)()); };
#define HARNESS(n) extern "C" void vch_##n(); static VcReg vcreg_##n(#n, vch_##n); extern "C" void vch_##n()
#else
#define HARNESS(n) extern "C" void vch_##n()
#endif
/* contract of a callee: replaces the body of the mangled function at every call in the verifier */
#define CONTRACT(mangled) vcstub_##mangled
#endif
#endif
