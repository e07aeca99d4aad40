// Interface between harnesses and the engine (engine/vfe) or the native replay runtime (rt/native.cpp).
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t vf_sym(const char* name, unsigned bits);              // a fresh symbolic value
void     vf_make_symbolic(void* p, size_t n, const char* name);
void     vf_assume(bool c);
void     vf_check(bool c, const char* msg);
[[noreturn]] void vf_fail(const char* msg);
[[noreturn]] void vf_skip();                                    // abandon this path
uint64_t vf_choice(const char* name, uint64_t n);               // a symbolic value in [0,n), one path per value
uint64_t vf_concretize(uint64_t v);                             // one path per feasible value
void     vf_observe(uint64_t v);                                // recorded for trace validation
void     vf_reach(const char* label);                           // vacuity witness
uint64_t vf_param(const char* name, uint64_t dflt);             // bound, fixed per run
uint64_t vf_live_heap();
bool     vf_is_live(const void* p);
void     vf_log(const char* msg, uint64_t v);
void     vf_note(const char* msg);
void     vf_yield();
bool     vf_norace(bool on);                                    // exempt the accesses of a model function from race detection; returns the previous setting
uint64_t vf_thread_id();
bool     vf_is_native();
bool     vf_is_concrete(uint64_t v);
int      vf_refadd(int* p, int d);
uint64_t vf_ite(bool c, uint64_t a, uint64_t b);
uint64_t vf_clock();
}
#ifdef __cplusplus
namespace vf {
template<class T> inline T any(const char* name) { return static_cast<T>(vf_sym(name, sizeof(T) * 8)); }
inline uint64_t range(const char* name, uint64_t lo, uint64_t hi, unsigned bits = 64)
{ // symbolic, lo <= v <= hi
    uint64_t v = vf_sym(name, bits);
    vf_assume(v >= lo && v <= hi);
    return v;
}
inline uint64_t pick(const char* name, uint64_t lo, uint64_t hi) { return lo + vf_choice(name, hi - lo + 1); }
}
#define CHECK(c, msg) vf_check((c), msg)
#endif
