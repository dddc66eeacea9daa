#include <math.h>
#include <complex.h>
