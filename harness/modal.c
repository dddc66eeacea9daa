/* Normal modes of a layered half space.  y=(q,w,s,t): displacement and traction (divided by k) of one wavenumber; y' = k M y inside a
 * layer, continuous across interfaces (slip at fluids), no traction on the free surface, only waves decaying with depth in the half space.
 * A mode exists exactly when this homogeneous problem has a solution; the oracle solves it by propagating y, nothing of the R/T method is used. */
#include "verif.h"
#include "grt.h"
#include "grt/modal/secular.h"
#include "grt/modal/eigenfn.h"
#include "grt/modal/energy.h"
#include "grt/modal/modgrn.h"
#include "grt/dynamic/source.h"
typedef struct { double lam, mu, rho, c2, va, vb, xa, xb; bool liq, oa, ob; } MED;   /* oa/ob: P/S waves oscillate with depth (slowness = i*xa) */
static MED G[3];
static double K, Cph, H[2];
static int N;
static double sq(double x, bool o){ return o? -x*x : x*x; }
static MED med(double xa, bool oa, double xb, bool ob, double rho, bool liq, double c)
{
    MED m; memset(&m,0,sizeof(m)); m.rho=rho; m.liq=liq; m.c2=c*c; m.xa=xa; m.xb=xb; m.oa=oa; m.ob=ob;
    double l2m = rho*c*c/(1.0-sq(xa,oa));
    m.mu = liq? 0.0 : rho*c*c/(1.0-sq(xb,ob));
    m.lam = l2m - 2.0*m.mu; m.va=sqrt(l2m/rho); m.vb= liq? 0.0 : sqrt(m.mu/rho);
    return m;
}
/* fluid: bit mask of fluid layers; osc: bit 2i: P oscillates in layer i, bit 2i+1: S oscillates */
static void media(int n, int fluid, int osc)
{
    static volatile double XA[3]={0.8,0.6,0.8}, XB[3]={0.4,0.2,0.6}, YA[3]={0.5,1.0,0.5}, YB[3]={1.0,0.5,1.5}, RH[3]={2.0,2.5,3.0}, CP=2.0;
    Cph=CP; N=n;
    for(int i=0;i<3;i++){ bool a=(osc>>(2*i))&1, b=(osc>>(2*i+1))&1; G[i]=med(a?YA[i]:XA[i], a, b?YB[i]:XB[i], b, RH[i], (fluid>>i)&1, Cph); }
    if(n==2) G[1]=G[2];
}
static void syms(void)
{
    vopt("generic",1);
    double h=vsym("h",0.2,1.5); K=vsym("k",0.2,2.0); H[0]=2.0*h; H[1]=2.0*h;
    vassume(exp(-0.2*K*h) > 0.0); vassume(cos(0.5*K*h) < 2.0);      /* fixes the common base of all exponentials and angles */
}
static MODEL1D *M; static MODEL1D_STATE *S;
static void model(void)
{
    M = grt_init_mod1d(N); double dep=0;
    for(int i=0;i<N;i++){
        const MED *g=&G[i];
        M->Thk[i]= i<N-1? H[i] : 1e30; M->Dep[i]=dep; if(i<N-1) dep += H[i];
        M->Va[i]=g->va; M->Vb[i]=g->vb; M->Rho[i]=g->rho; M->isLiquid[i]=g->liq;
        M->Qa[i]=M->Qb[i]=9e10; M->Qainv[i]=M->Qbinv[i]=0;
    }
    M->isrc=M->ircv=0; M->srcrcv_isInserted=false; M->depsrc=M->deprcv=0; M->topbound=GRT_BOUND_FREE; M->botbound=GRT_BOUND_HALFSPACE; M->omgref=6.283185307179586;
    S = grt_init_mod1d_state(M); grt_update_mod1d_state_omega(S, Cph*K, true);
}
static void unmodel(void){ grt_free_mod1d_state(S); grt_free_mod1d(M); }

typedef double complex cx;
static void Mmul(const MED *g, const cx y[4], cx r[4])
{
    if(g->liq){ r[0]=0; r[1]=y[2]*(1.0/g->lam - 1.0/(g->rho*g->c2)); r[2]=-g->rho*g->c2*y[1]; r[3]=0; return; }
    double l2=g->lam+2.0*g->mu; cx a[4];
    a[0] = -y[1] + y[3]*(1.0/g->mu);
    a[1] = (g->lam*y[0] + y[2])*(1.0/l2);
    a[2] = (-g->rho*g->c2)*y[1] + y[3];
    a[3] = (4.0*g->mu*(g->lam+g->mu)/l2 - g->rho*g->c2)*y[0] - (g->lam/l2)*y[2];
    memcpy(r,a,sizeof(a));
}
static void CS(double x, bool o, double xi, double *C, double *Sn)      /* cosh(x xi), sinh(x xi)/x or cos, sin/x */
{
    if(o){ *C=cos(x*xi); *Sn=sin(x*xi)/x; return; }
    double e=exp(-x*xi); *C=(1.0/e+e)/2.0; *Sn=(1.0/e-e)/2.0/x;
}
static void prop(const MED *g, double h, cx y[4])
{
    double xi=K*h, Ca,Sa,Cb,Sb; cx M1[4],M2[4],M3[4];
    Mmul(g,y,M1); CS(g->xa,g->oa,xi,&Ca,&Sa);
    if(g->liq){ for(int i=1;i<3;i++) y[i] = Ca*y[i] + Sa*M1[i]; y[0]=-y[2]*(1.0/(g->rho*g->c2)); y[3]=0; return; }
    Mmul(g,M1,M2); Mmul(g,M2,M3); CS(g->xb,g->ob,xi,&Cb,&Sb);
    double A=sq(g->xa,g->oa), B=sq(g->xb,g->ob), d=A-B, a2=(Ca-Cb)/d, a0=Ca-a2*A, a3=(Sa-Sb)/d, a1=Sa-a3*A;
    for(int i=0;i<4;i++) y[i]=a0*y[i]+a1*M1[i]+a2*M2[i]+a3*M3[i];
}
static void propv(const MED *g, double h, cx v[2])
{
    double C,Sn; CS(g->xb,g->ob,K*h,&C,&Sn);
    cx a=C*v[0]+(Sn/g->mu)*v[1], b=(g->mu*sq(g->xb,g->ob)*Sn)*v[0]+C*v[1]; v[0]=a; v[1]=b;
}
static const char *lb(const char *p, int i, int j){ static char b[40]; int n=strlen(p); memcpy(b,p,n); b[n]='0'+i; b[n+1]='0'+j; b[n+2]=0; return b; }
static void ceq(const char *l, cx a, cx b){ veq(l, creal(a), creal(b)); veq(l, cimag(a), cimag(b)); }

/* secular function and eigenfunctions of the code at depths inside, above and below every interface */
#define ND 12
static cx SEC; static cx Y[3][3][4];      /* Y[layer][0: top, 1: inside, 2: bottom (half space: deeper)] */
static double OFF[3][3];
static void eigen(DISPER_TYPE wt, int iref)
{
    int nc = wt==GRT_DISPERSION_RAYL? 4 : 2;
    grt_update_mod1d_state_k(S, K);
    cx dn[3*4], up[4*4], p[4], pu[4]; memset(dn,0,sizeof(dn)); memset(up,0,sizeof(up)); memset(p,0,sizeof(p)); memset(pu,0,sizeof(pu));
    SEC=0; grt_secular_function_potential(S, Cph, iref, wt, &SEC, p, pu);
    cx s2; grt_secular_function(S, Cph, iref, wt, &s2); ceq("sec", s2, SEC);
    grt_get_mod_potential_Up_Down(S, wt, nc, iref, p, pu, (cx (*)[nc])dn, (cx (*)[nc])up);
    double zs[9]; size_t zi[9]; EIGENFN_INFO E; memset(&E,0,sizeof(E)); EIGENFN F; memset(&F,0,sizeof(F));
    cx fn[9][4]; memset(fn,0,sizeof(fn)); int n=0;
    for(int i=0;i<N;i++) for(int j=0;j<3;j++){ double t= i<N-1? H[i] : H[0]; OFF[i][j]= j==0? 0.0 : (j==1? t/2.0 : t); zs[n]=M->Dep[i]+OFF[i][j]; zi[n]=i; n++; }
    E.nz=n; E.zs=zs; E.z_irefs=zi; F.fn=fn;
    grt_get_eigenfn_depths(S, wt, nc, (const cx (*)[nc])dn, (const cx (*)[nc])up, &E, &F);
    n=0; for(int i=0;i<N;i++) for(int j=0;j<3;j++){ for(int l=0;l<4;l++) Y[i][j][l] = (wt==GRT_DISPERSION_RAYL? l>=2 : l==1)? fn[n][l]/K : fn[n][l]; n++; }
}

/* ------------------------------------------------------------------ Love */
/* oracle: (v, traction) from the topmost solid layer downwards; T[i] = value at the top of layer i */
static void lovecol(int i0, cx T[3][2]){ T[i0][0]=1; T[i0][1]=0; for(int i=i0;i<N-1;i++){ T[i+1][0]=T[i][0]; T[i+1][1]=T[i][1]; propv(&G[i],H[i],T[i+1]); } }
static void loveres(int i0, bool root, int iref)
{
    for(int i=i0;i<N;i++){
        for(int j=1;j<3;j++){ cx y[2]={Y[i][0][0],Y[i][0][1]}; propv(&G[i],OFF[i][j],y); ceq(lb("motion_v",i,j), y[0], Y[i][j][0]); ceq(lb("motion_t",i,j), y[1], Y[i][j][1]); }
        if(i<N-1 && (root || i+1!=iref)){ ceq(lb("cont_v",i,0), Y[i][2][0], Y[i+1][0][0]); ceq(lb("cont_t",i,0), Y[i][2][1], Y[i+1][0][1]); }
    }
    if(root || iref!=i0) ceq("surface", Y[i0][0][1], 0);
    const MED *g=&G[N-1]; 
    ceq("decay", Y[N-1][0][1], -(g->mu*g->xb)*(g->ob? (cx)(1.0*_Complex_I) : (cx)1.0)*Y[N-1][0][0]);
    for(int i=0;i<i0;i++) for(int j=0;j<3;j++) for(int l=0;l<4;l++) ceq("fluid", Y[i][j][l], 0);
}
static void love(int n, int fluid, int osc, int iref)
{
    media(n,fluid,osc); syms(); int i0=0; while((fluid>>i0)&1) i0++;
    /* every wavenumber: the secular function is the mismatch of the boundary value problem, up to a constant */
    model(); eigen(GRT_DISPERSION_LOVE, iref); loveres(i0,false,iref);
    cx T[3][2]; lovecol(i0,T);
    const MED *g=&G[N-1]; double x=g->xb*g->mu;
    cx D = T[N-1][1] + x*T[N-1][0];       /* mismatch of the column with unit surface displacement, half space evanescent */
    /* the same mismatch seen at the reference interface: divided by the amplitudes the R/T form normalises to one */
    if(iref==i0){
        /* surface traction of the decaying column, its downgoing part at the surface set to one */
        cx B[2]={1,-x}; for(int i=N-2;i>=i0;i--) propv(&G[i],-H[i],B);
        cx xb = (G[i0].ob? (cx)(1.0*_Complex_I) : (cx)1.0)*G[i0].xb*G[i0].mu;
        cx dnw = (B[0] - B[1]/xb)*0.5;
        ceq("secular", SEC*dnw*xb, -B[1]);
    } else {
        cx U[2]={T[iref][0],T[iref][1]}, B[2]={1,-x}; for(int i=N-2;i>=iref;i--) propv(&G[i],-H[i],B);
        cx xb = (G[iref].ob? (cx)(1.0*_Complex_I) : (cx)1.0)*G[iref].xb*G[iref].mu;
        cx dnw = (B[0] - B[1]/xb)*0.5, upw=(U[0]+U[1]/xb)*0.5;
        ceq("secular", 2.0*SEC*dnw*upw*xb, U[1]*B[0]-U[0]*B[1]);
    }
    unmodel();
    /* a mode: choose the rigidity of the half space so that the homogeneous problem has a solution */
    model(); double m = -creal(T[N-1][1])/(creal(T[N-1][0])*g->xb);
    S->mu[N-1] = m; G[N-1].mu = m;
    eigen(GRT_DISPERSION_LOVE, iref); ceq("root", SEC, 0); loveres(i0,true,iref);
    { cx xb = (G[iref].ob? (cx)(1.0*_Complex_I) : (cx)1.0)*G[iref].xb*G[iref].mu, a=xb*Y[iref][0][0]-Y[iref][0][1]; vtrue("nonzero", creal(a)*creal(a)+cimag(a)*cimag(a)>0.0); }
    unmodel(); vreach("end");
}
void h_love20(void){ love(2,0,0,0); }
void h_love20o(void){ love(2,0,2,0); }
void h_love30(void){ love(3,0,2,0); }
void h_love31(void){ love(3,0,2,1); }
void h_love31o(void){ love(3,0,8,1); }
void h_lovef1(void){ love(3,1,8,1); }

/* ------------------------------------------------------------------ Rayleigh */
static cx JJ(const cx a[4], const cx b[4]){ return a[0]*b[3]-a[3]*b[0]+a[1]*b[2]-a[2]*b[1]; }      /* conserved product of two motions */
static cx xw(double x, bool o){ return o? x*(cx)(1.0*_Complex_I) : (cx)x; }
static void wave(const MED *g, bool P, double up, cx y[4])           /* one plane wave, up: +1 grows with depth, -1 decays with depth */
{
    cx a=up*xw(g->xa,g->oa), b=up*xw(g->xb,g->ob);
    if(P){ y[0]=1; y[1]=a; y[3]=2.0*a*g->mu; y[2]=(g->lam+2.0*g->mu)*sq(g->xa,g->oa)-g->lam; }
    else { y[1]=1; y[0]=b; y[2]=2.0*g->mu*b; y[3]=g->mu*(sq(g->xb,g->ob)+1.0); }
}
static cx det2(cx a, cx b, cx c, cx d){ return a*d-b*c; }
static void split(const MED *g, cx C[2][4], cx d[2][2], cx u[2][2])   /* amplitudes [type][column] of the downgoing and upgoing waves */
{
    for(int i=0;i<2;i++){ cx yu[4],yd[4]; wave(g,i==0,1,yu); wave(g,i==0,-1,yd); cx n=JJ(yd,yu);
        for(int j=0;j<2;j++){ d[i][j]=JJ(C[j],yu)/n; u[i][j]=-JJ(C[j],yd)/n; } }
}
static void decaying(int to, cx B[2][4]){ for(int j=0;j<2;j++){ wave(&G[N-1],j==0,-1,B[j]); for(int i=N-2;i>=to;i--) prop(&G[i],-H[i],B[j]); } }
static void fromtop(int to, cx U[2][4]){ memset(U,0,2*sizeof(U[0])); U[0][0]=1; U[1][1]=1; for(int j=0;j<2;j++) for(int i=0;i<to;i++) prop(&G[i],H[i],U[j]); }
static void rayres(bool root, int iref)
{
    for(int i=0;i<N;i++){
        for(int j=1;j<3;j++){ cx y[4]; for(int l=0;l<4;l++) y[l]=Y[i][0][l]; prop(&G[i],OFF[i][j],y); for(int l=0;l<4;l++) ceq(lb("motion",i*4+l,j), y[l], Y[i][j][l]); }
        if(i<N-1 && (root || i+1!=iref)){ bool fl=G[i].liq||G[i+1].liq;
            for(int l=fl?1:0;l<(fl?3:4);l++) ceq(lb("cont",i,l), Y[i][2][l], Y[i+1][0][l]);
            if(fl){ ceq(lb("shear",i,0), Y[i][2][3], 0); ceq(lb("shear",i,1), Y[i+1][0][3], 0); } }
    }
    if(root || iref!=0){ ceq("surface_n", Y[0][0][2], 0); ceq("surface_t", Y[0][0][3], 0); }
    const MED *g=&G[N-1]; cx up[4]; wave(g,true,-1,up);
    if(g->liq) ceq("decay_l", Y[N-1][0][2]*up[1], Y[N-1][0][1]*up[2]);
    else { ceq("decay_P", JJ(Y[N-1][0],up), 0); wave(g,false,-1,up); ceq("decay_S", JJ(Y[N-1][0],up), 0); }
}
/* all solid layers: the secular function is the determinant of the boundary value problem, and what is left of the mismatch is one wave */
static void rays(int n, int osc, int iref)
{
    media(n,0,osc); syms(); model(); eigen(GRT_DISPERSION_RAYL, iref); rayres(false,iref);
    const MED *g=&G[iref]; cx B[2][4],U[2][4],Bd[2][2],Bu[2][2],Ud[2][2],Uu[2][2]; decaying(iref,B); split(g,B,Bd,Bu);
    if(iref==0 && !g->ob){
        double m=2.0*g->mu; ceq("secular", 2.0*SEC*det2(Bd[0][0],Bd[0][1],Bd[1][0],Bd[1][1]), det2(B[0][2]/m,B[1][2]/m,B[0][3]/m,B[1][3]/m));
    } else {
        fromtop(iref,U); split(g,U,Ud,Uu);
        /* rows: down P, down S, up P, up S; columns: B0 B1 U0 U1.  Expansion in 2x2 minors of the rows (down | up) */
        cx c[4][4]; for(int i=0;i<2;i++)for(int j=0;j<2;j++){ c[i][j]=Bd[i][j]; c[i][2+j]=Ud[i][j]; c[2+i][j]=Bu[i][j]; c[2+i][2+j]=Uu[i][j]; }
        cx d=0; static const int pr[6][5]={{0,1,2,3,1},{0,2,1,3,-1},{0,3,1,2,1},{1,2,0,3,1},{1,3,0,2,-1},{2,3,0,1,1}};
        for(int p=0;p<6;p++) d += (double)pr[p][4]*det2(c[0][pr[p][0]],c[0][pr[p][1]],c[1][pr[p][0]],c[1][pr[p][1]])*det2(c[2][pr[p][2]],c[2][pr[p][3]],c[3][pr[p][2]],c[3][pr[p][3]]);
        ceq("secular", SEC*det2(Bd[0][0],Bd[0][1],Bd[1][0],Bd[1][1])*det2(Uu[0][0],Uu[0][1],Uu[1][0],Uu[1][1]), d);
    }
    /* the rest: at the reference level only one combination of traction (free surface) or one wave is left, so it vanishes with the secular function */
    if(iref==0) ceq("single", Y[0][0][2]*Y[0][0][3], 0);
    else { cx j[4],yu[2][4],yd[2][4]; for(int l=0;l<4;l++) j[l]=Y[iref][0][l]-Y[iref-1][2][l];
        for(int i=0;i<2;i++){ wave(g,i==0,1,yu[i]); wave(g,i==0,-1,yd[i]); }
        cx a0=JJ(j,yu[0]), a1=JJ(j,yu[1]); ceq("noup_P", JJ(j,yd[0]), 0); ceq("noup_S", JJ(j,yd[1]), 0); ceq("single", a0*a1, 0); }
    unmodel(); vreach("end");
}
void h_ray20(void){ rays(2,0,0); }
void h_ray20o(void){ rays(2,2,0); }
void h_ray30(void){ rays(3,0,0); }
void h_ray31(void){ rays(3,0,1); }
void h_ray31o(void){ rays(3,8,1); }
void h_ray31oo(void){ rays(3,12,1); }
/* fluid layers.  A mode is made by scaling density and moduli below the lowest fluid-solid interface (this scales the tractions there, not the motions) */
static int F0, F1;                                      /* fluid layers F0 <= i < F1 */
static cx freepair(cx C[2][4], cx *w, cx *s){ *w=C[0][1]*C[1][3]-C[1][1]*C[0][3]; *s=C[0][2]*C[1][3]-C[1][2]*C[0][3]; return 0; }   /* the combination without shear traction */
static void rayf(int n, int fluid, int osc, int iref)
{
    media(n,fluid,osc); syms(); for(F0=0;!G[F0].liq;) F0++; for(F1=F0;F1<n&&G[F1].liq;) F1++;
    cx y[4]={0,1,0,0};
    if(F0>0){ cx U[2][4],w,s; fromtop(F0,U); freepair(U,&w,&s); y[1]=w; y[2]=s; }
    for(int i=F0;i<F1&&i<n-1;i++) prop(&G[i],H[i],y);
    if(F1<n){
        cx B[2][4],w,s; decaying(F1,B); freepair(B,&w,&s);
        double f=creal(y[2])*creal(w)/(creal(y[1])*creal(s)); for(int i=F1;i<n;i++){ G[i].rho*=f; G[i].lam*=f; G[i].mu*=f; }
    } else {                                             /* fluid half space */
        cx d[4]; wave(&G[n-1],true,-1,d); double f=creal(y[2])*creal(d[1])/(creal(y[1])*creal(d[2])); G[n-1].rho*=f; G[n-1].lam*=f;
    }
    vassume(G[n-1].rho>0.0);
    model(); eigen(GRT_DISPERSION_RAYL, iref); ceq("root", SEC, 0); rayres(true,iref);
    unmodel(); vreach("end");
}
void h_rayf_ls(void){ rayf(2,1,0,0); }
void h_rayf_lso(void){ rayf(2,1,1,0); }
void h_rayf_lss1(void){ rayf(3,1,0,1); }
void h_rayf_lls1(void){ rayf(3,3,0,1); }
void h_rayf_sls0(void){ rayf(3,2,0,0); }
void h_rayf_sls1(void){ rayf(3,2,0,1); }
void h_rayf_ssl1(void){ rayf(3,4,0,1); }

/* ------------------------------------------------------------------ energy integrals and phase velocity sensitivities */
typedef struct { int n; bool hs; cx A[4], s[4], v[4][2]; } WAVES;     /* motion (q,w) or (v,-) as a sum of exponentials from the top of the layer */
static void waves(int i, const cx *y, bool love, WAVES *W)
{
    const MED *g=&G[i]; bool hs=i==N-1; memset(W,0,sizeof(*W)); W->hs=hs;
    for(int t=love||g->liq?1:2;t>0;t--) for(int up=-1;up<=(hs?-1:1);up+=2){ int m=W->n++; cx a[4],b[4]; double u=up;
        if(love){ cx x=u*xw(g->xb,g->ob); W->s[m]=K*x; W->v[m][0]=1; W->A[m]= hs? y[0] : (x*g->mu*y[0]+y[1])/(2.0*x*g->mu); continue; }
        bool P= g->liq||t==2; wave(g,P,u,a); wave(g,P,-u,b); W->s[m]=K*u*(P?xw(g->xa,g->oa):xw(g->xb,g->ob)); W->v[m][0]=a[0]; W->v[m][1]=a[1];
        if(g->liq) W->A[m]= hs? y[1]/a[1] : (y[1]*b[2]-y[2]*b[1])/(a[1]*b[2]-a[2]*b[1]);
        else W->A[m]=JJ(y,b)/JJ(a,b); }
}
/* integral from z0 to z0+dz (dz<0: to infinity) of d^p f_a * d^q f_b */
static cx integ(const WAVES *W, double z0, double dz, int fa, int p, int fb, int q)
{
    cx r=0;
    for(int i=0;i<W->n;i++)for(int j=0;j<W->n;j++){
        cx c=W->A[i]*W->A[j]*W->v[i][fa]*W->v[j][fb]; if(p) c*=W->s[i]; if(q) c*=W->s[j];
        cx s=W->s[i]+W->s[j]; bool zero=!W->hs && (i^j)==1;
        if(zero){ r+=c*dz; continue; }
        cx e0=cexp(s*z0); r += dz<0? -c*e0/s : c*(cexp(s*(z0+dz))-e0)/s; }
    return r;
}
static void energy(DISPER_TYPE wt, int n, int fluid, int osc, bool sub)
{
    bool love= wt==GRT_DISPERSION_LOVE; int nc=love?2:4; media(n,fluid,osc); syms(); model(); grt_update_mod1d_state_k(S,K); S->c_phase=Cph;
    cx dn[3*4], up[4*4]; memset(dn,0,sizeof(dn)); memset(up,0,sizeof(up));
    for(int i=0;i<n;i++){ if(love&&G[i].liq) continue; int h=nc/2; for(int l=0;l<h;l++){ if(!love&&G[i].liq&&l==1) continue; char b[8]={'d','0'+i,'0'+l,0}; dn[i*nc+h+l]=vsym(b,-2,2); b[0]='u'; if(i<n-1) up[(i+1)*nc+l]=vsym(b,-2,2); } }
    /* motion at the layer tops */
    double zs[3]; size_t zi[3]; EIGENFN_INFO E; memset(&E,0,sizeof(E)); EIGENFN F; memset(&F,0,sizeof(F)); cx fn[3][4]; memset(fn,0,sizeof(fn));
    for(int i=0;i<n;i++){ zs[i]=M->Dep[i]; zi[i]=i; } E.nz=n; E.zs=zs; E.z_irefs=zi; F.fn=fn;
    grt_get_eigenfn_depths(S, wt, nc, (const cx (*)[nc])dn, (const cx (*)[nc])up, &E, &F);
    WAVES W[3]; for(int i=0;i<n;i++){ if(love&&G[i].liq){ W[i].n=0; continue; } cx y[4]; for(int l=0;l<4;l++) y[l]= (love? l==1 : l>=2)? fn[i][l]/K : fn[i][l]; waves(i,y,love,&W[i]); }
    /* slabs */
    double cz[6]; size_t ci[6]; int ns=0; double off[6], dz[6]; cx cs[6][GRT_SNSTVTY_MAX]; memset(cs,0,sizeof(cs));
    for(int i=0;i<n;i++){ double t= i<n-1? H[i] : H[0]; for(int j=0;j<(sub?2:1);j++){ off[ns]= j? t/2.0 : 0.0; dz[ns]= i==n-1 && (j||!sub)? -1.0 : (sub? t/2.0 : t); cz[ns]=M->Dep[i]+off[ns]; ci[ns]=i; ns++; } }
    EIGENFN_INFO E2; memset(&E2,0,sizeof(E2)); EIGENFN F2; memset(&F2,0,sizeof(F2)); E2.cpar_nz=ns; F2.csens=cs; if(sub){ E2.cpar_zs=cz; E2.cpar_z_irefs=ci; }
    for(int j=0;j<GRT_EGYINTS_MAX;j++) F2.egyint[j]=77;
    grt_energy_integrals(S, wt, nc, (const cx (*)[nc])dn, (const cx (*)[nc])up, &E2, &F2);
    cx I1=0,I2=0,I3=0,I4=0, KL[6],KM[6],KR[6]; double om=Cph*K;
    for(int m=0;m<ns;m++){ const MED *g=&G[ci[m]]; const WAVES *w=&W[ci[m]]; double l=g->lam, mu=g->mu; KL[m]=KM[m]=KR[m]=0; if(!w->n) continue;
#define IN(a,p,b,q) integ(w,off[m],dz[m],a,p,b,q)
        cx qq=IN(0,0,0,0), dqq=IN(0,1,0,1);
        if(love){ I1+=0.5*g->rho*qq; I2+=0.5*mu*qq; I4+=0.5*mu*dqq; KM[m]=mu*(K*K*qq+dqq); KR[m]=-g->rho*om*om*qq; continue; }
        cx ww=IN(1,0,1,0), qdw=IN(0,0,1,1), wdq=IN(1,0,0,1), dww=IN(1,1,1,1);
        I1+=0.5*g->rho*(qq+ww); I2+=0.5*((l+2.0*mu)*qq+mu*ww); I3+=l*qdw-mu*wdq; I4+=0.5*(mu*dqq+(l+2.0*mu)*dww);
        KL[m]=l*(K*K*qq-2.0*K*qdw+dww); KM[m]=mu*(K*K*ww+2.0*K*wdq+dqq+2.0*K*K*qq+2.0*dww); KR[m]=-g->rho*om*om*(qq+ww);
    }
    ceq("I1",F2.egyint[0],I1); ceq("I2",F2.egyint[1],I2); ceq("I3",F2.egyint[2],I3); ceq("I4",F2.egyint[3],I4);
    cx dom=4.0*K*K*F2.egyint[1]-2.0*K*F2.egyint[2];
    for(int m=0;m<ns;m++){ const MED *g=&G[ci[m]]; double c=Cph; cx d=dom;
        if(love) ceq("kernel_a",cs[m][0],0); else ceq("kernel_a",cs[m][0]*d, 2.0*(g->lam+2.0*g->mu)/g->lam*KL[m]*(c/g->va));
        ceq("kernel_b",cs[m][1]*d, g->liq? 0 : (2.0*KM[m]-4.0*g->mu/g->lam*KL[m])*(c/g->vb));
        ceq("kernel_r",cs[m][2]*d, (KL[m]+KM[m]+KR[m])*(c/g->rho)); }
    unmodel(); vreach("end");
}
void h_en_love(void){ energy(GRT_DISPERSION_LOVE,2,0,0,false); }
void h_en_love_sub(void){ energy(GRT_DISPERSION_LOVE,2,0,2,true); }
void h_en_love_f(void){ energy(GRT_DISPERSION_LOVE,3,1,8,false); }
void h_en_ray(void){ energy(GRT_DISPERSION_RAYL,2,0,0,false); }
void h_en_ray_o(void){ energy(GRT_DISPERSION_RAYL,2,0,2,false); }
void h_en_ray_sub(void){ energy(GRT_DISPERSION_RAYL,2,0,0,true); }
void h_en_ray_f(void){ energy(GRT_DISPERSION_RAYL,2,1,0,true); }
void h_en_ray_fh(void){ energy(GRT_DISPERSION_RAYL,2,2,0,false); }
