/* Source time functions and time-domain operators. */
#include "verif.h"
#include "grt.h"
#include "grt/dynamic/signals.h"
/* number of steps after rounding a duration up to the sampling interval (1e-6 s of slack) */
static bool rounded(double T, double dt, int n){ return n*dt > T-2e-6 && (n-1)*dt < T-0.5e-6; }
void h_parabola(void)
{
    double dt=vsym("dt",0.1,1), t0=vsym("t0",0.1,3), s=t0/dt; vassume(s>1e-3 && s<5.5); for(int i=1;i<6;i++) vassume(fabs(t0-i*dt)>1e-4);
    vassume(fabs(s-1.0)>1e-3); vexit_ok(); if(s>1.0) vnoerr("valid duration refused");
    float T=t0; int nt; float *a=grt_get_parabola_wave(dt,&T,&nt); vtrue("accepted",s>1.0);
    vtrue("len",rounded(t0,dt,nt-1)); veq("T",T,(nt-1)*dt);
    for(int i=0;i<nt;i++){ double x=2.0*i/(nt-1)-1.0; veq("shape",a[i],1.0-x*x); } vreach("end");
}
/* a duration that is a multiple of the interval stays as it is */
void h_exact(void)
{
    double dt=vsym("dt",0.1,1); int m=vint("m",2,5); float T=m*dt; int nt; float *a=grt_get_parabola_wave(dt,&T,&nt); vtrue("nt",nt==m+1); veq("T",T,m*dt); veq("last",a[nt-1],0.0);
    float u1=dt*m, u2=dt*(m+1), u3=dt*(2*m+1); float *b=grt_get_trap_wave(dt,&u1,&u2,&u3,&nt); vtrue("ntrap",nt==2*m+2); veq("T3",u3,(2*m+1)*dt);
    for(int i=0;i<nt;i++) veq("trap",b[i], i<=m? (double)i/m : i<=m+1? 1.0 : (double)(2*m+1-i)/m);
    float v1=dt*m, v2=v1, v3=dt*2*m; b=grt_get_trap_wave(dt,&v1,&v2,&v3,&nt); vtrue("ntri",nt==2*m+1); for(int i=0;i<nt;i++) veq("tri",b[i], i<=m? (double)i/m : (double)(2*m-i)/m);
    vreach("end");
}
void h_trap(void)
{
    double dt=vsym("dt",0.3,1), t1=vsym("t1",0.1,2), d2=vsym("d2",0.1,2), d3=vsym("d3",0.1,2), t2=t1+d2, t3=t2+d3;
    for(int i=1;i<8;i++){ vassume(fabs(t1-i*dt)>1e-3); vassume(fabs(t2-i*dt)>1e-3); vassume(fabs(t3-i*dt)>1e-3); } vassume(t1<2.5*dt && t2<4.5*dt && t3<6.5*dt);
    float T1=t1,T2=t2,T3=t3; int nt; 
    float *a=grt_get_trap_wave(dt,&T1,&T2,&T3,&nt);
    int n1=0,n2=0,n3; for(int i=1;i<8&&!n1;i++) if(i*dt>t1) n1=i;
    for(int i=n1;i<9&&!n2;i++) if(i*dt>t2 && i>n1) n2=i; 
    if(!(t2>n1*dt)) n2=-1;                       /* platform shorter than the rounding of the ramp: not constrained */
    vassume(n2>0); n3=0; for(int i=n2+1;i<11&&!n3;i++) if(i*dt>t3) n3=i; vassume(t3>n2*dt);
    veq("T1",T1,n1*dt); veq("T2",T2,n2*dt); veq("T3",T3,n3*dt); vtrue("nt",nt==n3+1);
    for(int i=0;i<nt;i++) veq("shape",a[i], i<=n1? (double)i/n1 : i<=n2? 1.0 : (double)(n3-i)/(n3-n2)); vreach("end");
}
void h_ricker(void)
{
    double dt=vsym("dt",0.05,1), f0=vsym("f0",0.1,5); vassume(f0*dt>0.21); int n=0; for(int i=1;i<6;i++) if(i*dt*f0<=1.0) n=i;
    for(int i=1;i<6;i++) vassume(fabs(i*dt*f0-1.0)>1e-4); bool good=1.0/dt>2.0*f0; vassume(fabs(f0*dt-0.5)>1e-4);
    vexit_ok(); if(good) vnoerr("valid frequency refused");
    int nt; float *a=grt_get_ricker_wave(dt,f0,&nt); vtrue("accepted",good); vtrue("nt",nt==2*(n+1));
    for(int i=0;i<nt;i++){ double x=PI*PI*f0*f0*(i*dt-1.0/f0)*(i*dt-1.0/f0); veq("shape",a[i],(1.0-2.0*x)*exp(-x)); } vreach("end");
}
/* the parameter text is parsed and checked as documented */
static char *cat(const char *a, const char *b){ char *r=malloc(strlen(a)+strlen(b)+1); strcpy(r,a); strcat(r,b); return r; }
void h_params(void)
{
    int k=vint("kind",0,2); double a=vsym("a",-2,5), b=vsym("b",-2,5), c=vsym("c",-2,5), dt=0.5; 
    const char *s= k==1? cat(cat(cat(vstr(a),"/"),cat(vstr(b),"/")),vstr(c)) : cat(vstr(a),""); char t= k==0?GRT_SIG_PARABOLA:k==1?GRT_SIG_TRAPEZOID:GRT_SIG_RICKER;
    bool good= k==1? (a>=0&&b>=a&&c>b) : a>0;
    vexit_ok(); if(good) vnoerr("valid parameters refused"); bool r=grt_check_tftype_tfparams(t,s); vtrue("accepted",good&&r); vreach("end");
}
void h_timefun(void)
{
    vopt("generic",1); int k=vint("kind",0,2); double dt=0.5, a=vsym("a",0.6,1.9), b=a+0.7, c=b+0.9; if(k==2) a=vsym("f0",0.3,0.9);
    const char *s= k==1? cat(cat(cat(vstr(a),"/"),cat(vstr(b),"/")),vstr(c)) : cat(vstr(a),""); char t= k==0?GRT_SIG_PARABOLA:k==1?GRT_SIG_TRAPEZOID:GRT_SIG_RICKER;
    int n1,n2; float A=a,B=b,C=c; float *x=grt_get_time_function(&n1,dt,t,s), *y= k==0? grt_get_parabola_wave(dt,&A,&n2) : k==1? grt_get_trap_wave(dt,&A,&B,&C,&n2) : grt_get_ricker_wave(dt,A,&n2);
    vtrue("n",n1==n2); for(int i=0;i<n1&&i<n2;i++) veq("same",x[i],y[i]); vreach("end");
}
/* custom time function: one value per line, comments and blank lines skipped */
void h_custom(void)
{
    double v[3]; FILE *f=fopen("tf","w"); fprintf(f,"# c\n"); for(int i=0;i<3;i++){ char b[8]; snprintf(b,8,"v%d",i); v[i]=vsym(b,-9,9); fprintf(f,"  %s\n",vstr(v[i])); if(i==1) fprintf(f,"\n # d\n"); } fclose(f);
    vtrue("check",grt_check_tftype_tfparams(GRT_SIG_CUSTOM,"tf")); int n; float *a=grt_get_time_function(&n,0.5,GRT_SIG_CUSTOM,"tf"); vtrue("n",n==3); for(int i=0;i<n;i++) veq("val",a[i],v[i]); vreach("end");
}
static void sy(float *x, double *d, int n, const char *p){ for(int i=0;i<n;i++){ char b[12]; snprintf(b,12,"%s%d",p,i); d[i]=vsym(b,-9,9); x[i]=d[i]; } }
/* convolution, linear (zeros outside) or periodic in the first argument, for any relation of the lengths */
void h_conv(void)
{
    int nx=vint("nx",1,4), nh=vint("nh",1,7), circ=vint("circ",0,1); float x[4],h[7],y[4]; double X[4],H[7]; sy(x,X,nx,"x"); sy(h,H,nh,"h");
    grt_oaconvolve(x,nx,h,nh,y,nx,circ); for(int n=0;n<nx;n++){ double s=0; for(int k=0;k<nh;k++){ int i=n-k; if(i<0&&!circ) continue; i=((i%nx)+nx)%nx; s+=X[i]*H[k]; } veq("conv",y[n],s); } vreach("end");
}
/* integration and differentiation on arbitrary traces; derivative of quadratics and integral of linear functions exact */
void h_calculus(void)
{
    int n=vint("n",2,5); double dt=vsym("dt",0.1,2); float x[5],y[5]; double X[5]; sy(x,X,n,"x"); memcpy(y,x,sizeof(x));
    float ar=grt_trap_area(x,n,dt); grt_trap_integral(x,n,dt); grt_differential(y,n,dt); double s=0; veq("i0",x[0],0);
    for(int i=1;i<n;i++){ s+=0.5*dt*(X[i]+X[i-1]); veq("int",x[i],s); } veq("area",ar,s);
    veq("d0",y[0],(X[1]-X[0])/dt); veq("dn",y[n-1],(X[n-1]-X[n-2])/dt); for(int i=1;i<n-1;i++) veq("dif",y[i],(X[i+1]-X[i-1])/(2.0*dt)); vreach("end");
}
