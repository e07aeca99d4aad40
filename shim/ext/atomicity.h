// Verification shim for libstdc++'s <ext/atomicity.h>: reference-count updates are single atomic
// actions without a scheduling point of their own (see DESIGN.md, "Schedules").
#ifndef _GLIBCXX_ATOMICITY_H
#define _GLIBCXX_ATOMICITY_H 1
#include <bits/c++config.h>
#include <bits/gthr.h>
#include <bits/atomic_word.h>
extern "C" int vf_refadd(int*, int);
namespace __gnu_cxx _GLIBCXX_VISIBILITY(default) {
_GLIBCXX_BEGIN_NAMESPACE_VERSION
inline bool __is_single_threaded() _GLIBCXX_NOTHROW { return false; }
inline _Atomic_word __exchange_and_add(volatile _Atomic_word* m, int v) { return vf_refadd((int*)m, v); }
inline void __atomic_add(volatile _Atomic_word* m, int v) { vf_refadd((int*)m, v); }
inline _Atomic_word __exchange_and_add_single(_Atomic_word* m, int v) { return vf_refadd((int*)m, v); }
inline void __atomic_add_single(_Atomic_word* m, int v) { vf_refadd((int*)m, v); }
inline _Atomic_word __attribute__((__always_inline__)) __exchange_and_add_dispatch(_Atomic_word* m, int v) { return vf_refadd((int*)m, v); }
inline void __attribute__((__always_inline__)) __atomic_add_dispatch(_Atomic_word* m, int v) { vf_refadd((int*)m, v); }
_GLIBCXX_END_NAMESPACE_VERSION
}
#define _GLIBCXX_READ_MEM_BARRIER __atomic_thread_fence(__ATOMIC_ACQUIRE)
#define _GLIBCXX_WRITE_MEM_BARRIER __atomic_thread_fence(__ATOMIC_RELEASE)
#endif
