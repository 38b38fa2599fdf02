// Specification language of the verifier. A proof function is a contract on real code:
//   VC_PROOF(name) { any inputs; vc_assume(pre); call real function; vc_assert(post, "obligation"); }
// The same text compiles natively for replay (values of vc_* come from the counterexample).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint8_t vc_u8(const char *);
uint16_t vc_u16(const char *);
uint32_t vc_u32(const char *);
uint64_t vc_u64(const char *);
bool vc_bool(const char *);
double vc_f64(const char *);
float vc_f32(const char *);
void vc_assume(bool);
void vc_assert(bool, const char *);
void vc_cover(const char *);
void *vc_alloc(size_t bytes, size_t stride, const char *name);
void vc_havoc(void *, size_t n, const char *name);
bool vc_valid(const void *, size_t n);
bool vc_freed(const void *);
size_t vc_live_heap(void);
void vc_set_env(void (*)(void));
uint64_t vc_concretize(uint64_t);
unsigned vc_sync(bool reset);
bool vc_split(bool);
void vc_unreachable(const char *);
bool vc_symbolic(void);
bool vc_same_object(const void *, const void *);
void vc_end(void);
}
// any value in [lo,hi]
extern "C" uint64_t vc_in(const char *, uint64_t lo, uint64_t hi);
struct vc_replace_t { const char *proof; const char *fn; void *stub; };
#define VC_PROOF(name) extern "C" __attribute__((noinline,used)) void vcproof_##name(void)
// in proofs matching regex PROOF, calls to functions whose demangled name matches regex FN
// are checked against the contract function STUB instead of their body
#define VC_CONTRACT(tag, PROOF, FN, STUB) \
    extern "C" __attribute__((used)) const vc_replace_t vcreplace_##tag; \
    const vc_replace_t vcreplace_##tag = {PROOF, FN, (void *)STUB};
#define VC_OPT(tag, PROOF, TEXT) \
    extern "C" __attribute__((used)) const char *const vcopt_##tag[2]; \
    const char *const vcopt_##tag[2] = {PROOF, TEXT};
