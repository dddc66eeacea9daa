/* CBMC harness interface: same source model-checked (lib/vcb_cbmc.c) and replayed natively (lib/vcb_native.c). */
#ifndef VCB_H
#define VCB_H
#include <stdbool.h>
int    cin_int(int lo, int hi);
double cin_dbl(double lo, double hi);
char   cin_chr(void);
#ifdef __VCBMC__
#define cassume(c) __CPROVER_assume(c)
#define cassert(label, c) __CPROVER_assert(c, label)
#define creach() __CPROVER_assert(0, "VREACH")
#else
void cassume(bool c);
void cassert_n(const char *label, bool c);
#define cassert(label, c) cassert_n(label, c)
#define creach() ((void)0)
#endif
#endif
