/* Harness language.  One harness text is used three ways:
 *   VH_CBMC    obligations over the C text extracted from /repo (inputs nondeterministic: every value)
 *   native     linked against the real g++ objects of /repo: replay of a counterexample, seeded search
 *   native, extracted text: differential check of the extraction itself
 * Inputs are drawn one after the other with in_*(); a counterexample is the list of drawn values. */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <string.h>
#include <stdlib.h>

#ifdef VH_CBMC
unsigned long __VERIFIER_nondet_u64(void);
static inline uint64_t in_raw(void) { uint64_t vh_in = __VERIFIER_nondet_u64(); __CPROVER_input("vh_in",vh_in); return vh_in; }
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(id,c) __CPROVER_assert(c,"CHECK " id)
#define REACH() __CPROVER_assert(0,"REACH")
#define H(name) void h_##name(void)
#define VH_NATIVE 0
static inline int64_t in_range(int64_t lo,int64_t hi) { int64_t v = (int64_t)in_raw(); __CPROVER_assume(v >= lo && v <= hi); return v; }
static inline uint64_t in_urange(uint64_t lo,uint64_t hi) { uint64_t v = in_raw(); __CPROVER_assume(v >= lo && v <= hi); return v; }
static inline uint8_t in_u8(void) { return (uint8_t)in_raw(); }
static inline uint16_t in_u16(void) { return (uint16_t)in_raw(); }
static inline uint32_t in_u32(void) { return (uint32_t)in_raw(); }
static inline uint64_t in_u64(void) { return in_raw(); }
/* one character of `set` (NUL not included) */
static inline char in_charset(const char *set,int n) { char c = (char)in_raw(); int ok = 0; for (int i = 0;i < n;i++) if (set[i] == c) ok = 1; __CPROVER_assume(ok); return c; }
#else
#define VH_NATIVE 1
extern void vh_assume_fail(void) __attribute__((noreturn));
extern void vh_check_fail(const char *id) __attribute__((noreturn));
extern uint64_t vh_draw(int kind,uint64_t lo,uint64_t hi,const char *set);
extern void vh_register(const char *name,void (*f)(void));
extern void vh_reach(void);
#define ASSUME(c) do { if (!(c)) vh_assume_fail(); } while (0)
#define CHECK(id,c) do { if (!(c)) vh_check_fail(id); } while (0)
#define REACH() vh_reach()
#define H(name) static void h_##name(void); __attribute__((constructor)) static void vh_reg_##name(void) { vh_register(#name,h_##name); } static void h_##name(void)
static inline uint64_t in_raw(void) { return vh_draw(0,0,0,0); }
static inline int64_t in_range(int64_t lo,int64_t hi) { int64_t v = (int64_t)vh_draw(1,(uint64_t)lo,(uint64_t)hi,0); ASSUME(v >= lo && v <= hi); return v; }
static inline uint64_t in_urange(uint64_t lo,uint64_t hi) { uint64_t v = vh_draw(2,lo,hi,0); ASSUME(v >= lo && v <= hi); return v; }
static inline uint8_t in_u8(void) { return (uint8_t)vh_draw(3,8,0,0); }
static inline uint16_t in_u16(void) { return (uint16_t)vh_draw(3,16,0,0); }
static inline uint32_t in_u32(void) { return (uint32_t)vh_draw(3,32,0,0); }
static inline uint64_t in_u64(void) { return vh_draw(3,64,0,0); }
static inline char in_charset(const char *set,int n) { char c = (char)vh_draw(4,0,(uint64_t)n,set); int ok = 0; for (int i = 0;i < n;i++) if (set[i] == c) ok = 1; ASSUME(ok); return c; }
#endif
static inline int8_t in_i8(void) { return (int8_t)in_u8(); }
static inline int32_t in_i32(void) { return (int32_t)in_u32(); }
static inline int64_t in_i64(void) { return (int64_t)in_u64(); }
static inline int in_bool(void) { return (int)(in_u8() & 1); }
#define IN_CHARSET(s) in_charset(s,(int)sizeof(s)-1)
#define IN_BYTES(buf,n) do { for (int vh_i = 0;vh_i < (int)(n);vh_i++) ((unsigned char*)(buf))[vh_i] = in_u8(); } while (0)
#endif
