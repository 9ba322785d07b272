// Reference counts with the weakest ordering that is still correct.
//
// libstdc++ updates shared_ptr counts with acquire+release.  Every copy of a
// shared basis then looks like synchronisation between threads, which hides
// data races from ThreadSanitizer.  Taking a reference needs no ordering and
// dropping one needs release, plus acquire only for the thread that drops the
// last one, so nothing the program may rely on is lost.
#ifndef VF_TSAN_ATOMICITY_H
#define VF_TSAN_ATOMICITY_H
#define __exchange_and_add_dispatch __vf_orig_exchange_and_add_dispatch
#define __atomic_add_dispatch __vf_orig_atomic_add_dispatch
#include_next <ext/atomicity.h>
#undef __exchange_and_add_dispatch
#undef __atomic_add_dispatch
namespace __gnu_cxx {
inline __attribute__((__always_inline__)) _Atomic_word __exchange_and_add_dispatch(_Atomic_word *m, int v) {
  const _Atomic_word r = __atomic_fetch_add(m, v, __ATOMIC_RELEASE);
  if (r + v == 0) (void)__atomic_load_n(m, __ATOMIC_ACQUIRE);
  return r;
}
inline __attribute__((__always_inline__)) void __atomic_add_dispatch(_Atomic_word *m, int v) { __atomic_fetch_add(m, v, __ATOMIC_RELAXED); }
}
#endif
