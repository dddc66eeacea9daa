#define _GNU_SOURCE
#include "vcb.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
static FILE *out, *in;
static double next(void){ double v=0; if(!in || fscanf(in,"%lf",&v)!=1) v=0; return v; }
int cin_int(int lo,int hi){ (void)lo;(void)hi; return (int)next(); }
double cin_dbl(double lo,double hi){ (void)lo;(void)hi; return next(); }
char cin_chr(void){ return (char)(int)next(); }
void cassume(bool c){ if(!c){ fprintf(out,"ASSUMEFAIL\n"); fflush(out); _Exit(0);} }
void cassert_n(const char*l,bool c){ if(!c){ fprintf(out,"BAD %s\n",l); fflush(out);} }
static int done; static void atx(void){ if(!done && out){ fprintf(out,"BAD refused\n"); fflush(out); } }
int main(int argc,char**argv){ if(argc<4) return 9; in=fopen(argv[2],"r"); out=fopen(argv[3],"w");
  void (*f)(void)=(void(*)(void))dlsym(RTLD_DEFAULT,argv[1]); if(!f) return 8;
  atexit(atx); f(); done=1; fprintf(out,"DONE\n"); fclose(out); return 0; }
