/* Source radiation factors and coordinate rotations against their tensor definitions. */
#include "verif.h"
#include "grt.h"
static void clr(realChnlGrid g){ for(int i=0;i<GRT_SRC_M_NUM;i++) for(int j=0;j<GRT_CHANNEL_NUM;j++) g[i][j]=0.0; }
static void expect_mt(const char *l, const double M[3][3], double az, double mult, double e[6][3])
{
    /* x north, y east, z down; rotate to (r,t,z): n = r */
    double c=cos(az), s=sin(az), tr=(M[0][0]+M[1][1]+M[2][2])/3.0;
    double Mrr=c*c*M[0][0]+2.0*c*s*M[0][1]+s*s*M[1][1], Mtt=s*s*M[0][0]-2.0*c*s*M[0][1]+c*c*M[1][1];
    double Mrt=c*s*(M[1][1]-M[0][0])+(c*c-s*s)*M[0][1], Mrz=c*M[0][2]+s*M[1][2], Mtz=c*M[1][2]-s*M[0][2];
    memset(e,0,18*sizeof(double));
    e[0][0]=e[0][1]=mult*tr;
    e[3][0]=e[3][1]=mult*(M[2][2]-tr)/2.0;
    e[4][0]=e[4][1]=-mult*Mrz; e[4][2]=-mult*Mtz;
    e[5][0]=e[5][1]=mult*(Mrr-Mtt)/2.0; e[5][2]=mult*Mrt;
}
static void cmp(realChnlGrid g, double e[6][3], const int *src, int n)
{
    for(int i=0;i<n;i++) for(int j=0;j<3;j++) veq("radiation", g[src[i]][j], e[src[i]][j]);
}
static void deriv(GRT_SYN_TYPE t, double M0, double coef, double vv, double az, const double *m, const int *src, int n)
{
    realChnlGrid a, d; clr(a); clr(d);
    grt_set_source_radiation(a, t, false, M0, coef, vv, az, m);
    grt_set_source_radiation(d, t, true, M0, coef, vv, az, m);
    for(int i=0;i<n;i++) for(int j=0;j<3;j++) veq("azderiv", d[src[i]][j], vdiff(a[src[i]][j], "az"));
}
#define COMMON double M0=vsym("M0",0.1,1e20), coef=vsym("coef",0.01,100), az=vsym("az",-7,7), vv=vsym("vpvs",1.2,3); realChnlGrid g; clr(g); double e[6][3];
static const int sEX[]={0}, sSF[]={1,2}, sMT[]={0,3,4,5}, sDC[]={3,4,5};
void h_ex(void){ COMMON double m[6]={0}; grt_set_source_radiation(g, GRT_SYN_EX, false, M0, coef, vv, az, m);
    memset(e,0,sizeof(e)); e[0][0]=e[0][1]=1e-20*M0*coef; cmp(g,e,sEX,1); deriv(GRT_SYN_EX,M0,coef,vv,az,m,sEX,1); vreach("end"); }
void h_sf(void){ COMMON double m[6]={vsym("fn",-9,9),vsym("fe",-9,9),vsym("fz",-9,9)}; grt_set_source_radiation(g, GRT_SYN_SF, false, M0, coef, vv, az, m);
    memset(e,0,sizeof(e)); double u=1e-15*M0*coef; e[1][0]=e[1][1]=u*m[2]; e[2][0]=e[2][1]=u*(m[0]*cos(az)+m[1]*sin(az)); e[2][2]=u*(m[1]*cos(az)-m[0]*sin(az));
    cmp(g,e,sSF,2); deriv(GRT_SYN_SF,M0,coef,vv,az,m,sSF,2); vreach("end"); }
void h_mt(void){ COMMON double m[6]={vsym("m11",-9,9),vsym("m12",-9,9),vsym("m13",-9,9),vsym("m22",-9,9),vsym("m23",-9,9),vsym("m33",-9,9)};
    grt_set_source_radiation(g, GRT_SYN_MT, false, M0, coef, vv, az, m);
    double M[3][3]={{m[0],m[1],m[2]},{m[1],m[3],m[4]},{m[2],m[4],m[5]}};
    expect_mt("mt",M,az,1e-20*M0*coef,e); cmp(g,e,sMT,4); deriv(GRT_SYN_MT,M0,coef,vv,az,m,sMT,4); vreach("end"); }
/* fault normal n and slip d of Aki & Richards, x north, y east, z down */
static void fault(double st, double di, double ra, double n[3], double d[3])
{
    n[0]=-sin(di)*sin(st); n[1]=sin(di)*cos(st); n[2]=-cos(di);
    d[0]=cos(ra)*cos(st)+cos(di)*sin(ra)*sin(st); d[1]=cos(ra)*sin(st)-cos(di)*sin(ra)*cos(st); d[2]=-sin(ra)*sin(di);
}
void h_dc(void){ COMMON double m[6]={vsym("strike",-400,400),vsym("dip",-200,200),vsym("rake",-400,400)}, n[3], d[3], M[3][3];
    grt_set_source_radiation(g, GRT_SYN_DC, false, M0, coef, vv, az, m);
    double q=DEG1; fault(m[0]*q,m[1]*q,m[2]*q,n,d); for(int i=0;i<3;i++)for(int j=0;j<3;j++) M[i][j]=n[i]*d[j]+n[j]*d[i];
    expect_mt("dc",M,az,1e-20*M0*coef,e); cmp(g,e,sDC,3); veq("trace",M[0][0]+M[1][1]+M[2][2],0); deriv(GRT_SYN_DC,M0,coef,vv,az,m,sDC,3); vreach("end"); }
void h_ts(void){ COMMON double m[6]={vsym("strike",-400,400),vsym("dip",-200,200)}, n[3], d[3], M[3][3];
    grt_set_source_radiation(g, GRT_SYN_TS, false, M0, coef, vv, az, m);
    double q=DEG1; fault(m[0]*q,m[1]*q,0,n,d); for(int i=0;i<3;i++)for(int j=0;j<3;j++) M[i][j]=2.0*n[i]*n[j]+(i==j? vv*vv-2.0:0.0);
    expect_mt("ts",M,az,1e-20*M0*coef,e); cmp(g,e,sMT,4); deriv(GRT_SYN_TS,M0,coef,vv,az,m,sMT,4); vreach("end"); }

/* ------------------------------------------------ rotations */
static double th, R;
static void basis(double c, double s, double Q[3][3]){ memset(Q,0,9*sizeof(double)); Q[0][0]=1; Q[1][1]=c; Q[1][2]=s; Q[2][1]=-s; Q[2][2]=c; }
static const char *nm[12]={"a0","a1","a2","a3","a4","a5","a6","a7","a8","a9","a10","a11"};
void h_rotvec(void){ th=vsym("th",-7,7); double a[3],b[3],Q[3][3]; for(int i=0;i<3;i++) a[i]=b[i]=vsym(nm[i],-9,9);
    basis(cos(th),sin(th),Q); grt_rot_zxy2zrt_vec(th,b); for(int i=0;i<3;i++) veq("vec", b[i], Q[i][0]*a[0]+Q[i][1]*a[1]+Q[i][2]*a[2]); vreach("end"); }
void h_rotten(void){ th=vsym("th",-7,7); double a[6],b[6],Q[3][3],A[3][3]; for(int i=0;i<6;i++) a[i]=b[i]=vsym(nm[i],-9,9);
    int ix[3][3]={{0,1,2},{1,3,4},{2,4,5}}; for(int i=0;i<3;i++)for(int j=0;j<3;j++) A[i][j]=a[ix[i][j]];
    basis(cos(th),sin(th),Q); grt_rot_zxy2zrt_symtensor2odr(th,b);
    for(int i=0;i<3;i++)for(int j=i;j<3;j++){ double s=0; for(int k=0;k<3;k++)for(int l=0;l<3;l++) s+=Q[i][k]*A[k][l]*Q[j][l]; veq("tensor", b[ix[i][j]], s); } vreach("end"); }
static void load(double u[3], double p[3][3]){ th=vsym("th",-7,7); for(int i=0;i<3;i++) u[i]=vsym(nm[i],-9,9); for(int i=0;i<9;i++) p[i/3][i%3]=vsym(nm[3+i],-9,9); }
/* cylindrical components of a field with Cartesian value u and gradient p (p[dir][comp]); at distance r, azimuth th */
static void tocyl(const double u[3], double p[3][3], double r, double v[3], double w[3][3])
{
    double Q[3][3]; basis(cos(th),sin(th),Q);
    for(int i=0;i<3;i++){ v[i]=0; for(int k=0;k<3;k++) v[i]+=Q[i][k]*u[k]; for(int j=0;j<3;j++){ w[i][j]=0; for(int k=0;k<3;k++)for(int l=0;l<3;l++) w[i][j]+=Q[i][k]*p[k][l]*Q[j][l]; } }
    /* (1/r)d/dth acts on components: basis vectors turn */
    double ror = r>0? v[1]/r : w[1][1], tor = r>0? v[2]/r : w[1][2];
    w[2][1]+=tor; w[2][2]-=ror;
}
void h_cart2cyl(void){ double u[3],p[3][3],v[3],w[3][3]; load(u,p); R=vsym("r",10,1e8); tocyl(u,p,R,v,w); grt_rot_zxy2zrt_upar(th,u,p,R);
    for(int i=0;i<3;i++){ veq("u",u[i],v[i]); for(int j=0;j<3;j++) veq("grad",p[i][j],w[i][j]); } vreach("end"); }
void h_cyl2cart(void){ double u[3],p[3][3],v[3],w[3][3]; load(u,p); R=vsym("r",10,1e8); tocyl(u,p,R,v,w); grt_rot_zrt2zxy_upar(th,v,w,R);
    for(int i=0;i<3;i++){ veq("u",u[i],v[i]); for(int j=0;j<3;j++) veq("grad",p[i][j],w[i][j]); } vreach("end"); }
void h_cyl2cart0(void){ double u[3],p[3][3],v[3],w[3][3]; load(u,p); tocyl(u,p,0,v,w); grt_rot_zrt2zxy_upar(th,v,w,0.0);
    for(int i=0;i<3;i++){ veq("u",u[i],v[i]); for(int j=0;j<3;j++) veq("grad",p[i][j],w[i][j]); } vreach("end"); }
void h_cart2cyl0(void){ double u[3],p[3][3],v[3],w[3][3]; load(u,p); tocyl(u,p,0,v,w); grt_rot_zxy2zrt_upar(th,u,p,0.0);
    for(int i=0;i<3;i++){ veq("u",u[i],v[i]); for(int j=0;j<3;j++) veq("grad",p[i][j],w[i][j]); } vreach("end"); }
