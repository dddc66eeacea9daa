#include "vcb.h"
int nondet_int(void); double nondet_double(void); char nondet_char(void);
int cin_int(int lo, int hi){ int vin = nondet_int(); __CPROVER_assume(vin >= lo && vin <= hi); __CPROVER_input("vin", vin); return vin; }
double cin_dbl(double lo, double hi){ double vin = nondet_double(); __CPROVER_assume(vin >= lo && vin <= hi); __CPROVER_input("vin", vin); return vin; }
char cin_chr(void){ char vin = nondet_char(); __CPROVER_input("vin", (int)vin); return vin; }
