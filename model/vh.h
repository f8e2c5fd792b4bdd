/* Harness API.  The same harness source is compiled twice:
 *  - by goto-cc (VH_CBMC defined) where every vh_* input is a fresh symbolic value, and
 *  - by gcc (native replay: real glib, ASan/UBSan) where the inputs come, in the same
 *    order, from the file named by $VH_INPUTS.
 */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>

#ifdef VH_CBMC
#define VH_ASSUME(c) __CPROVER_assume(c)
/* property assertion */
#define VH_ASSERT(c, msg) __CPROVER_assert((c), "PROP " msg)
/* reachability witness: this "assertion" must come back violated */
#define VH_REACH(id) __CPROVER_assert(0, "REACH " id)
#define VH_REACH_IF(c, id) __CPROVER_assert(!(c), "REACH " id)
/* a limit of the model/harness itself: a violation makes the run inconclusive */
#define VH_BOUND(c, msg) (__CPROVER_assert((c), "BOUND " msg), __CPROVER_assume(c))
#define VH_WRAP(f) f
#define VH_REAL(f) f
unsigned char nondet_vh_u8(void);
unsigned short nondet_vh_u16(void);
unsigned int nondet_vh_u32(void);
unsigned long nondet_vh_u64(void);
static inline uint8_t vh_u8(void) { uint8_t vh_in = nondet_vh_u8(); __CPROVER_input("vh", vh_in); return vh_in; }
static inline uint16_t vh_u16(void) { uint16_t vh_in = nondet_vh_u16(); __CPROVER_input("vh", vh_in); return vh_in; }
static inline uint32_t vh_u32(void) { uint32_t vh_in = nondet_vh_u32(); __CPROVER_input("vh", vh_in); return vh_in; }
static inline uint64_t vh_u64(void) { uint64_t vh_in = nondet_vh_u64(); __CPROVER_input("vh", vh_in); return vh_in; }
#else
#include <stdlib.h>
#include <stdio.h>
#define VH_ASSUME(c) vh_native_assume(!!(c), #c)
#define VH_ASSERT(c, msg) vh_native_assert(!!(c), msg, __FILE__, __LINE__)
#define VH_REACH(id) vh_native_reach(id)
#define VH_REACH_IF(c, id) do { if (c) vh_native_reach(id); } while (0)
#define VH_BOUND(c, msg) vh_native_assume(!!(c), msg)
#define VH_WRAP(f) __wrap_##f
#define VH_REAL(f) __real_##f
void vh_native_assume(int c, const char *txt);
void vh_native_assert(int c, const char *msg, const char *file, int line);
void vh_native_reach(const char *id);
uint64_t vh_native_next(void);
static inline uint8_t vh_u8(void) { return (uint8_t) vh_native_next(); }
static inline uint16_t vh_u16(void) { return (uint16_t) vh_native_next(); }
static inline uint32_t vh_u32(void) { return (uint32_t) vh_native_next(); }
static inline uint64_t vh_u64(void) { return (uint64_t) vh_native_next(); }
#endif

/* symbolic boolean, and integers in an inclusive range */
static inline int vh_bool(void) { uint8_t b = vh_u8(); VH_ASSUME(b <= 1); return b; }
static inline uint32_t vh_range(uint32_t lo, uint32_t hi) { uint32_t v = vh_u32(); VH_ASSUME(v >= lo && v <= hi); return v; }
static inline int64_t vh_i64_range(int64_t lo, int64_t hi) { int64_t v = (int64_t) vh_u64(); VH_ASSUME(v >= lo && v <= hi); return v; }
#define vh_fill(buf, n) do { size_t vh_i_; for (vh_i_ = 0; vh_i_ < (size_t)(n); vh_i_++) ((unsigned char*)(buf))[vh_i_] = vh_u8(); } while (0)

void vh_main(void); /* the harness */
#endif
