#define _GNU_SOURCE
#include "verif.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
static char names[4096][64]; static double vals[4096]; static int nv;
static FILE *out; static int exit_ok;
static void load(const char *f){ FILE *p=fopen(f,"r"); if(!p) return; while(nv<4096 && fscanf(p,"%63s %lf",names[nv],&vals[nv])==2) nv++; fclose(p);}    
static double get(const char*n,double d){ for(int i=0;i<nv;i++) if(!strcmp(names[i],n)) return vals[i]; fprintf(out,"MISSING %s\n",n); return d; }
double vsym(const char*n,double lo,double hi){ (void)hi; return get(n,lo);}    
int vint(const char*n,int lo,int hi){ (void)hi; return (int)get(n,lo);}    
void vassume(bool c){ if(!c){ fprintf(out,"ASSUMEFAIL\n"); fclose(out); _Exit(0);} }
void veq(const char*l,double a,double b){ fprintf(out,"EQ %s %.17g %.17g\n",l,a,b); fflush(out);}    
void vtrue(const char*l,bool c){ fprintf(out,"TRUE %s %d\n",l,c); fflush(out);}    
void vreach(const char*l){ fprintf(out,"REACH %s\n",l); fflush(out);}    
static int ndiff;
double vdiff(double e,const char*s){ char b[32]; snprintf(b,32,"__vdiff_%d",ndiff); fprintf(out,"VDIFF %d %s %.17g\n",ndiff,s,e); fflush(out); ndiff++;
  for(int i=0;i<nv;i++) if(!strcmp(names[i],b)) return vals[i]; return 0; }
double vat(double e,const char*n,double v){ (void)n;(void)v; return e; }
const char*vstr(double x){ static char b[64][40]; static int k; k=(k+1)&63; snprintf(b[k],40,"%.17g",x); return b[k]; }
void vopt(const char*n,int v){(void)n;(void)v;}
int vnative(void){return 1;}
void vexit_ok(void){exit_ok=1;}
void vnoerr(const char*l){(void)l;exit_ok=0;}
static int done;
static void atx(void){ if(out){ fprintf(out, done?"DONE\n":(exit_ok?"EXIT-OK\n":"EXIT\n")); fflush(out);} }
int main(int argc,char**argv){ if(argc<4) return 9; out=fopen(argv[3],"w"); load(argv[2]);
  atexit(atx);
  void (*f)(void)=(void(*)(void))dlsym(RTLD_DEFAULT,argv[1]); if(!f) {fprintf(out,"NOSYM\n"); return 8;}
  f(); done=1; return 0; }
