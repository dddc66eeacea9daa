/* Rounding of the subdivision counts of a finite fault in IEEE double precision. */
#include <math.h>
#include <string.h>
#include "vcb.h"
#include "grt/common/finite_fault.h"
#ifdef __VCBMC__
/* the fault is vertical and runs due north: sine of its dip and length are exact */
double sin(double x) { return x > 1.5 ? 1.0 : 0.0; }
double cos(double x) { return x > 1.5 ? 6.123233995736766e-17 : 1.0; }
double hypot(double a, double b) { return fabs(b) > fabs(a) ? fabs(b) : fabs(a); }
void exit(int c) { cassert("refused", 0); cassume(0); }
#endif
void h_blocks(void)
{
    FINITE_FAULT f; memset(&f, 0, sizeof f); f.kode = 100; f.dip = 90; f.slip = 1;
    f.top = 0; f.bot = cin_dbl(0, 20); f.north_end = cin_dbl(1, 1); double dW = cin_dbl(0.1, 5), dL = 1;
    cassume(f.bot > f.top && f.bot - f.top <= 3 * dW);
    double W, L; size_t nW, nL; grt_finite_fault_subdiv(&f, dL, dW, &W, &L, &nW, &nL);
    cassert("some_block", nW >= 1 && nW <= 4);
    FINITE_SUBFAULT s; grt_finite_fault_subfault(&f, dL, dW, W, L, nW - 1, 0, &s);   /* stops when the block has no width */
    creach();
}
