/* Harness interface.  The same harness source runs symbolically (IR executed by lib/irsym, these functions are
 * intercepted) and natively (lib/native.c, concrete values read from a file) for replay and translation validation. */
#ifndef VERIF_H
#define VERIF_H
#include <stdbool.h>
#include <stddef.h>
#include <complex.h>
double vsym(const char *name, double lo, double hi);      /* any real in [lo,hi] (+-1e300: unbounded) */
int    vint(const char *name, int lo, int hi);            /* any integer in [lo,hi] (case split) */
void   vassume(bool c);
void   veq(const char *label, double a, double b);        /* a == b for every value on this path */
void   vtrue(const char *label, bool c);
void   vreach(const char *label);                         /* vacuity witness: must be reached */
double vdiff(double e, const char *symname);              /* exact d e / d symbol (symbolic mode only) */
double vat(double e, const char *symname, double v);       /* e with the symbol fixed to v, the only value of its range (after vdiff) */
const char *vstr(double x);                               /* decimal text of a value (symbolic: opaque token) */
void   vopt(const char *name, int v);                     /* engine option */
int    vnative(void);
void   vexit_ok(void);                                    /* from here on exit() ends the path without a verdict */
void   vnoerr(const char *label);                          /* exit() after this point is a violation (default) */
#define VCEQ(label, A, B_) do { double complex _a = (A), _b = (B_); veq(label ".re", creal(_a), creal(_b)); veq(label ".im", cimag(_a), cimag(_b)); } while(0)
#endif
