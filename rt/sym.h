// Harness interface. Under the symbolic executor these calls are intercepted; natively (replay) they read
// the recorded inputs and check the same assertions.
#pragma once
#include <cstdint>
extern "C" {
uint64_t sym_bits(unsigned width, const char *name);          // any value of the given width
unsigned sym_choose(unsigned n, const char *name);            // any value in [0,n); explored one by one
void sym_assume_(int cond);
void sym_assert_(int cond, const char *label);
void sym_cover(const char *name);                              // a witness that must be reached on some path
void sym_observe(uint64_t v);                                  // output compared against the native run
uint64_t sym_concretize(uint64_t v);                           // fork over every feasible value
uint64_t sym_param(const char *name, uint64_t dflt);           // bound chosen by the runner
void sym_case(uint64_t id);                                    // identifies the call site / table entry under test
uint64_t sym_live_heap(void);                                  // engine only: live heap objects (native: 0)
void harness_main(void);
}
static inline uint8_t sym_u8(const char *n) { return (uint8_t)sym_bits(8, n); }
static inline uint16_t sym_u16(const char *n) { return (uint16_t)sym_bits(16, n); }
static inline uint32_t sym_u32(const char *n) { return (uint32_t)sym_bits(32, n); }
static inline uint64_t sym_u64(const char *n) { return sym_bits(64, n); }
static inline bool sym_bool(const char *n) { return sym_bits(1, n) != 0; }
static inline void sym_assume(bool c) { sym_assume_(c ? 1 : 0); }
static inline void sym_assert(bool c, const char *l) { sym_assert_(c ? 1 : 0, l); }
static inline uint32_t sym_range(uint32_t lo, uint32_t hi, const char *n) { uint32_t v = sym_u32(n); sym_assume(v >= lo && v <= hi); return v; }
static inline uint32_t sym_below(uint32_t n, const char *nm) { uint32_t v = sym_u32(nm); sym_assume(v < n); return v; } // one symbolic value, not split
