// Harness API: the same harness source is executed symbolically by symx and natively for replay.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t symx_u64(const char* name, unsigned bits);            // fresh symbolic input
void symx_buf(void* p, size_t n, const char* name);            // n fresh symbolic bytes
int symx_choice(const char* name, int n);                      // enumerated choice 0..n-1 (each one explored)
void symx_assume(uint64_t c);
void symx_assert(uint64_t c, const char* msg);
void symx_assert_mem(const void* a, const void* b, size_t n, const char* msg); // equal bytes, decided by the solver
void symx_reach(const char* marker);                           // vacuity marker
void symx_observe(const void* p, size_t n);                    // observation trace (compared with the native run)
void symx_observe_u64(uint64_t v);
int symx_is_engine(void);
uint64_t symx_concretize(uint64_t v);
int symx_is_symbolic(uint64_t v);
uint64_t symx_ite(uint64_t c, uint64_t a, uint64_t b);         // branch-free select
int symx_may(uint64_t c);
void symx_prune(void);
void symx_sync_point(void);                                    // scheduling point
int symx_tid(void);
int symx_locks_held(void);
void symx_print(const char*);
void symx_print_u64(const char*, uint64_t);
}
