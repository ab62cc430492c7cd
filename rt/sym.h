// Harness API.  Implemented by the symbolic engine (builtins.cpp) and, for the
// replay of a counterexample against the natively compiled code, by native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void     sym_bytes(void* p, size_t n, const char* name);          // n fresh symbolic bytes
uint64_t sym_range(uint64_t lo, uint64_t hi, const char* name);   // symbolic, lo <= x <= hi
uint64_t sym_u64(const char* name);
uint64_t sym_choose(uint64_t lo, uint64_t hi, const char* name);  // forks: concrete on each path
void     sym_assume_(int c);
void     sym_assert_(int c, const char* msg);
void     sym_fail(const char* msg);
void     sym_cover(uint32_t id);         // reachability witness
void     sym_observe(uint64_t v);        // logged; compared between engine and native run
uint64_t sym_concretize(uint64_t v);
uint64_t sym_arg();
int      sym_tier();                     // 1 when VERIF_TIER=thorough
int      sym_is_replay();
uint64_t sym_live_heap();
void     sym_end();
void     sym_reject();
uint64_t sym_ite(int c, uint64_t a, uint64_t b);
void     sym_print(const char* n, uint64_t v);
int      sym_readable(const void* p, size_t n);
int      sym_is_symbolic(uint64_t v);
int      sym_thread_create(void (*fn)(void*), void* arg);
void     sym_thread_join(int id);
void     sym_preempt_budget(int n);
void     sym_yield();
void     sym_spurious(int n);     // up to n waits on a condition variable return without a notification (each costs a preemption)
void     sym_timeouts(int on);    // timed waits may expire at any scheduling point (each costs a preemption)
void     sym_share(const void* p, size_t n);   // plain accesses to this memory are scheduling points as well (n = 0: no memory)
void     sym_share_heap(int on);               // ... to all heap memory
void     harness();
}
#define sym_assume(c) sym_assume_((c) ? 1 : 0)
#define sym_assert(c, msg) sym_assert_((c) ? 1 : 0, msg)
#define HARNESS extern "C" void harness()
