// Included before every source file of the simulated program. The compiler's instrumentation does not tell weak compare-exchanges
// from strong ones, so the library's calls are caught here: a weak one may fail although the values are equal.
#pragma once
extern "C" bool ksim_weak_cas_fails() noexcept;
#define __atomic_compare_exchange_n(p, e, d, w, s, f) \
    (((w) && ksim_weak_cas_fails()) ? (*(e) = __atomic_load_n((p), (f)), false) : __atomic_compare_exchange_n((p), (e), (d), (w), (s), (f)))
#define __atomic_compare_exchange(p, e, d, w, s, f) \
    (((w) && ksim_weak_cas_fails()) ? (__atomic_load((p), (e), (f)), false) : __atomic_compare_exchange((p), (e), (d), (w), (s), (f)))
