// Harness interface.  Under the symbolic executor these are intrinsics; natively (rt/native.cpp) they replay a recorded input.
#pragma once
#include <cstddef>
extern "C" {
long   dw_sym_int(const char *name, long lo, long hi);          // any integer in [lo, hi]
float  dw_sym_float(const char *name);                          // any (finite) real
void   dw_sym_floats(const char *name, float *p, unsigned long n);
void   dw_sym_bytes(const char *name, void *p, unsigned long n);
void   dw_assume(bool c);
void   dw_check(bool c, const char *msg);
void   dw_check_eqf(float actual, float expected, const char *msg);
long   dw_split(long v);                                        // one path per value
[[noreturn]] void dw_fail(const char *msg);
long   dw_heap_live();
int    dw_symbolic();
void   dw_exp_limit(double lim);                                // exp() beyond this argument counts as overflow
void   dw_exp_ieee(int on);                                     // exp() overflows to infinity and underflows to zero like float
void   dw_bit_precise(int on);                                  // floats are IEEE bit patterns: every rounding counts (call first)
void   dw_text_begin(void *ostream);                            // record what is inserted into this stream
long   dw_text_take(void *ostream, char *buf, long cap);        // fetch and forget it (symbolic executor only)
float  dw_text_float(long k);                                   // the k-th symbolic value recorded (shown as @k or #k)
long   dw_text_int(long k);
[[noreturn]] void dw_stop();
void   dw_reach(const char *name);
void   dw_race_on();
}
#define ENTRY extern "C" __attribute__((used, noinline)) void
