// Included before everything else: a weak compare-exchange may fail spuriously, which the machine here never does and the
// instrumentation of the compiler does not tell apart from a strong one. So the simulator is asked first.
#pragma once
extern "C" int sim_weak_cas_fails();
#define __atomic_compare_exchange_n(P, E, D, WEAK, S, F)                                                               \
    ((WEAK) && sim_weak_cas_fails() ? (*(E) = __atomic_load_n((P), (F)), false)                                       \
                                    : __atomic_compare_exchange_n(P, E, D, WEAK, S, F))
#include <atomic>
