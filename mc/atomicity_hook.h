// Replaces libstdc++'s <ext/atomicity.h> (reference counts of shared_ptr & co.) so that the
// model checker sees reference counting as such instead of as anonymous atomics.
#ifndef _GLIBCXX_ATOMICITY_H
#define _GLIBCXX_ATOMICITY_H 1
#include <bits/c++config.h>
#include <bits/gthr.h>
#include <bits/atomic_word.h>
extern "C" int mc_refcount_add(volatile int* p, int v);
namespace __gnu_cxx _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
inline bool __is_single_threaded() _GLIBCXX_NOTHROW { return false; }
inline _Atomic_word __exchange_and_add(volatile _Atomic_word* m, int v) { return mc_refcount_add(m, v); }
inline void __atomic_add(volatile _Atomic_word* m, int v) { mc_refcount_add(m, v); }
inline _Atomic_word __exchange_and_add_single(_Atomic_word* m, int v) { return mc_refcount_add(m, v); }
inline void __atomic_add_single(_Atomic_word* m, int v) { mc_refcount_add(m, v); }
inline _Atomic_word __exchange_and_add_dispatch(_Atomic_word* m, int v) { return mc_refcount_add(m, v); }
inline void __atomic_add_dispatch(_Atomic_word* m, int v) { mc_refcount_add(m, v); }
_GLIBCXX_END_NAMESPACE_VERSION
} // namespace
#undef _GLIBCXX_READ_MEM_BARRIER
#define _GLIBCXX_READ_MEM_BARRIER __atomic_thread_fence(__ATOMIC_ACQUIRE)
#undef _GLIBCXX_WRITE_MEM_BARRIER
#define _GLIBCXX_WRITE_MEM_BARRIER __atomic_thread_fence(__ATOMIC_RELEASE)
#endif
