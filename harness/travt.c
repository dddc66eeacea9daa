/* First arrivals: thicknesses and distance are symbols, the velocity tables are concrete. */
#include "verif.h"
#include "grt.h"
#include "grt/common/travt.h"
static double thk[10]; static int N;
/* earliest of the head waves along the top of a deeper or the bottom of a shallower faster layer */
static double heads(const double *v, int a, int b, double dist, double best)
{
    for(int m=0;m<N;m++){ if(m>=a&&m<=b) continue; bool ok=true; double X=0,T=0; int lo= m>b? a: m+1, hi= m>b? m: b;     /* layers crossed: lo..hi-1 */
        if(thk[m]==0) continue;
        for(int i=lo;i<hi;i++) if(thk[i]>0&&v[i]>=v[m]) ok=false; for(int i=a;i<b;i++) if(thk[i]>0&&v[i]>=v[m]) ok=false;
        if(!ok) continue;
        for(int i=lo;i<hi;i++){ if(thk[i]==0) continue; double s=v[i]/v[m], c=sqrt(1-s*s), w= i>=a&&i<b? 1:2; X+=w*thk[i]*s/c; T+=w*thk[i]/(v[i]*c); }
        vassume((X-dist)*(X-dist)>1e-8); if(X>dist) continue;
        T+=(dist-X)/v[m]; if(T<best) best=T; }
    return best;
}
/* both points in the same layer (imax = imin+1): exact for every thickness and distance */
static void same(const double *v, int n, int a)
{
    N=n; for(int i=0;i<n;i++){ char b[8]; snprintf(b,8,"h%d",i); thk[i]= i==n-1? 1e30 : vsym(b,0.01,20); } double dist=vsym("dist",0,300); int swap=vint("swap",0,1);
    double got=grt_compute_travt1d(thk,v,n,swap?a+1:a,swap?a:a+1,dist);
    double want=heads(v,a,a+1,dist,sqrt(dist*dist+thk[a]*thk[a])/v[a]); veq("time",got,want); vreach("end");
}
#define Q(x) ((x)/256.)
/* velocities (units of 1/256 km/s) for which every head-wave angle is rational */
static const double V1[]={Q(448),Q(448),Q(448),Q(952),Q(1073)}, V2[]={Q(952),Q(952),Q(952),Q(1073),Q(1105)}, V3[]={Q(1073),Q(448),Q(952),Q(952),Q(1105)}, V4[]={Q(952),Q(952),Q(952),Q(1073),Q(264),Q(1105)}, V5[]={Q(1105),Q(1073),Q(952),Q(952),Q(448),Q(1073)}, V6[]={Q(448),Q(448),Q(264),Q(448),Q(952)};
void h_tt1(void){ same(V1,5,1); } void h_tt2(void){ same(V2,5,1); } void h_tt3(void){ same(V3,5,2); } void h_tt4(void){ same(V4,6,1); } void h_tt5(void){ same(V5,6,2); }
/* different layers: the direct ray by shooting (fixed path), head waves with every thickness outside the path */
static void diff(const double *v, int n, int a, int b, int z0, int z1, double p)      /* p: ray parameter of the direct ray to distance d */
{
    vopt("fsqrt",1); N=n; double X=0,T=0; for(int i=0;i<n;i++){ char c[8]; snprintf(c,8,"h%d",i); thk[i]= i==n-1? 1e30 : i>=a&&i<b? (z0&&i==a? 0: 2+i) : i==b&&z1? 0 : vsym(c,0.01,20); if(i>=a&&i<b&&thk[i]>0){ double s=p*v[i], q=sqrt(1-s*s); X+=thk[i]*s/q; T+=thk[i]/(v[i]*q); } }
    int swap=vint("swap",0,1); double got=grt_compute_travt1d(thk,v,n,swap?b:a,swap?a:b,X); double want=heads(v,a,b,X,T); double e=got-want; vtrue("time",e*e<0.0004*0.0004); vreach("end");
}
void h_td1(void){ static const double v[]={4,4,5,5,6,8}; diff(v,6,1,3,0,0,0.16); } void h_td2(void){ static const double v[]={7,4,4,5,5,5.02,8}; diff(v,7,2,4,0,0,0.195); } void h_td3(void){ static const double v[]={6,5,5,3,4,4,6.5}; diff(v,7,2,5,0,0,0.199); }
/* the shallower or the deeper point exactly on an interface (zero-thickness layer with the velocity above it) */
void h_ti1(void){ static const double v[]={6,6,4,4,7}; diff(v,5,1,3,1,0,0.2); } void h_ti2(void){ static const double v[]={4,4,6,6,7}; diff(v,5,1,3,1,0,0.1); } void h_ti3(void){ static const double v[]={4,4,5,5,3,8}; diff(v,6,1,3,0,1,0.19); } void h_ti4(void){ static const double v[]={7,5,5,4,4,4,4.5,5.5}; diff(v,8,2,4,1,1,0.21); }
void h_td4(void){ static const double v[]={6,4,4,3,3,7}; diff(v,6,2,4,0,0,0.05); } void h_td5(void){ static const double v[]={6,4,4,3,3.5,3.5,7}; diff(v,7,2,5,0,0,0.2485); }
/* the table for a list of distances: P and S times of the model that was read, interleaved */
void h_file(void)
{
    static const double vp[]={Q(952),Q(1073)}, vs[]={Q(448),Q(952)}; double h=vsym("h",6,20), zs=4, zr=1, rs[2]={vsym("r0",0,50),72}; int up=vint("up",0,1);
    FILE *f=fopen("m","w"); fprintf(f,"%.17g %.17g %.17g 2.5 1000 500\n0 %.17g %.17g 2.7 800 300\n",h,vp[0],vs[0],vp[1],vs[1]); fclose(f);
    double *t=grt_compute_travt1d_from_file("m",up?zs:zr,up?zr:zs,rs,2); N=4; thk[0]=zr; thk[1]=zs-zr; thk[2]=h-zs; thk[3]=1e30;
    for(int k=0;k<2;k++) for(int s=0;s<2;s++){ const double *w=s?vs:vp, v[4]={w[0],w[0],w[0],w[1]}; char b[8]; snprintf(b,8,"t%d%d",k,s); double d=zs-zr; veq(b,t[2*k+s],heads(v,1,2,rs[k],sqrt(rs[k]*rs[k]+d*d)/w[0])); } vreach("end");
}
/* a layer without this wave type between the points, and elsewhere */
void h_tz(void){ static const double v[]={0,0,3,3,3,5}, w[]={3,3,3,0,5}; N=6; for(int i=0;i<6;i++) thk[i]= i==5?1e30: vsym("h",1,5); double d=vsym("dist",1,9); veq("between",grt_compute_travt1d(thk,v,6,1,3,d),-12345); veq("between_up",grt_compute_travt1d(thk,v,6,3,1,d),-12345); veq("at",grt_compute_travt1d(thk,v,6,0,1,d),-12345);
    for(int i=0;i<5;i++) thk[i]= i==4?1e30: thk[0]; N=5; veq("below",grt_compute_travt1d(thk,w,5,0,1,d),sqrt(d*d+thk[0]*thk[0])/3); vreach("end"); }
