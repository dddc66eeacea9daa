/* Layered-medium kernel as a boundary value problem.  y=(q,w,s,t): displacement and traction of one wavenumber,
 * y' = k M y inside a layer (elastic equations of motion), continuous across interfaces, prescribed jump at the source,
 * boundary conditions at the top and the bottom.  These conditions determine y uniquely; nothing of the R/T method is used. */
#include "verif.h"
#include "grt.h"
#define NMAX 8
typedef struct { double lam, mu, rho, c2, xa, xb; bool liq; } MED;   /* c2 = (omega/k)^2, 0 for the static problem */
typedef struct { int n; double thk[NMAX]; int med[NMAX]; int isrc, ircv; double depsrc, deprcv; GRT_BOUND_TYPE top, bot; bool dyn; } LM;
static MED G[4];
static double K, Cph;

static MED med(double xa, double xb, double rho, bool liq, bool dyn, double c)
{
    MED m; memset(&m,0,sizeof(m)); m.rho=rho; m.liq=liq; m.c2 = dyn? c*c : 0.0; m.xa=xa; m.xb=xb;
    if(dyn){
        double l2m = rho*c*c/(1.0-xa*xa);
        m.mu = liq? 0.0 : rho*c*c/(1.0-xb*xb);
        m.lam = l2m - 2.0*m.mu;
    }
    return m;
}
static MED medst(double lam, double mu, double rho){ MED m; memset(&m,0,sizeof(m)); m.lam=lam; m.mu=mu; m.rho=rho; m.xa=m.xb=1.0; return m; }

/* y for every source type from the kernel: displacement and its z derivative -> displacement and traction */
typedef struct { double y[6][4]; double v[6][2]; } RES;
static int ST;
static void solve(const LM *L, RES *R)
{
    MODEL1D *m = grt_init_mod1d(L->n);
    double dep=0;
    for(int i=0;i<L->n;i++){
        const MED *g=&G[L->med[i]];
        m->Thk[i]=L->thk[i]; m->Dep[i]=dep; dep += L->thk[i];
        m->Va[i]=sqrt((g->lam+2.0*g->mu)/g->rho); m->Vb[i]= g->liq?0.0:sqrt(g->mu/g->rho); m->Rho[i]=g->rho; m->isLiquid[i]=g->liq;
        m->Qa[i]=m->Qb[i]=9e10; m->Qainv[i]=m->Qbinv[i]=0;
    }
    m->isrc=L->isrc; m->ircv=L->ircv; m->ircvup=L->ircv<L->isrc; m->srcrcv_isInserted=true; m->depsrc=L->depsrc; m->deprcv=L->deprcv;
    m->topbound=L->top; m->botbound=L->bot; m->omgref=6.283185307179586;
    MODEL1D_STATE *s = grt_init_mod1d_state(m);
    cplxChnlGrid Q, Z;
    if(L->dyn){ grt_update_mod1d_state_omega(s, Cph*K, true); grt_kernel(s, K, Q, true, Z); }
    else { grt_update_mod1d_state_omega(s, -1.0, true); grt_static_kernel(s, K, Q, true, Z); }
    ST = s->stats;
    const MED *g=&G[L->med[L->ircv]];
    for(int i=0;i<6;i++){
        double q=creal(Q[i][0]), w=creal(Q[i][1]), v=creal(Q[i][2]), qz=creal(Z[i][0])/K, wz=creal(Z[i][1])/K, vz=creal(Z[i][2])/K;
        R->y[i][0]=q; R->y[i][1]=w; R->y[i][2]=(g->lam+2.0*g->mu)*wz - g->lam*q; R->y[i][3]=g->mu*(qz+w);
        R->v[i][0]=v; R->v[i][1]=g->mu*vz;
        for(int j=0;j<3;j++){ veq("real", cimag(Q[i][j]), 0); veq("realz", cimag(Z[i][j]), 0); }
    }
    grt_free_mod1d_state(s); grt_free_mod1d(m);
}

static void Mmul(const MED *g, const double y[4], double r[4])
{
    if(g->liq){ r[0]=0; r[1]=y[2]*(1.0/g->lam - 1.0/(g->rho*g->c2)); r[2]=-g->rho*g->c2*y[1]; r[3]=0; return; }
    double l2=g->lam+2.0*g->mu, a[4];
    a[0] = -y[1] + y[3]/g->mu;
    a[1] = (g->lam*y[0] + y[2])/l2;
    a[2] = -g->rho*g->c2*y[1] + y[3];
    a[3] = (4.0*g->mu*(g->lam+g->mu)/l2 - g->rho*g->c2)*y[0] - g->lam/l2*y[2];
    memcpy(r,a,sizeof(a));
}
/* exact propagation over thickness h (xi = k h) */
static void prop(const MED *g, double h, double y[4])
{
    double xi=K*h, M1[4],M2[4],M3[4],a0,a1,a2,a3;
    Mmul(g,y,M1); Mmul(g,M1,M2); Mmul(g,M2,M3);
    if(g->liq){
        double e=exp(-g->xa*xi), C=(1.0/e+e)/2.0, S=(1.0/e-e)/2.0;
        for(int i=1;i<3;i++) y[i] = C*y[i] + S/g->xa*M1[i];
        y[0]=0; y[3]=0; return;
    }
    if(g->c2==0.0){
        double e=exp(-xi), C=(1.0/e+e)/2.0, S=(1.0/e-e)/2.0;
        a2=xi*S/2.0; a0=C-a2; a3=(xi*C-S)/2.0; a1=S-a3;
    } else {
        double ea=exp(-g->xa*xi), eb=exp(-g->xb*xi), Ca=(1.0/ea+ea)/2.0, Sa=(1.0/ea-ea)/2.0/g->xa, Cb=(1.0/eb+eb)/2.0, Sb=(1.0/eb-eb)/2.0/g->xb;
        double d=g->xa*g->xa-g->xb*g->xb;
        a2=(Ca-Cb)/d; a0=Ca-a2*g->xa*g->xa; a3=(Sa-Sb)/d; a1=Sa-a3*g->xa*g->xa;
    }
    for(int i=0;i<4;i++) y[i]=a0*y[i]+a1*M1[i]+a2*M2[i]+a3*M3[i];
}
static void propv(const MED *g, double h, double v[2])
{
    double xi=K*h, x=g->xb, e=exp(-x*xi), C=(1.0/e+e)/2.0, S=(1.0/e-e)/2.0, m=g->mu*x;
    double a=C*v[0]+S/m*v[1], b=m*S*v[0]+C*v[1]; v[0]=a; v[1]=b;
}
/* components of y carried by waves growing (sgn>0) / decaying (sgn<0) with depth vanish */
static void nowave(const char *l, const MED *g, const double y[4], double sgn)
{
    double a[4], b[4];
    if(g->liq){
        Mmul(g,y,a); veq(l, a[1]+sgn*g->xa*y[1], 0); veq(l, a[2]+sgn*g->xa*y[2], 0); return;
    }
    Mmul(g,y,a); for(int i=0;i<4;i++) a[i]+=sgn*g->xa*y[i];
    Mmul(g,a,b); for(int i=0;i<4;i++) veq(l, b[i]+sgn*g->xb*a[i], 0);
}
static const double zero4[4];

/* ---------------------------------------------------------------- scenarios */
static bool DYN; static int LIQ;   /* LIQ: bit i set = medium i is a fluid */
static void setup(bool dyn)
{
    DYN=dyn;
    vopt("generic",1);     /* secular zeros (no finite response) excluded */
    static volatile double XA[3]={0.8,0.6,0.8}, XB[3]={0.4,0.2,0.6}, RH[3]={2.0,2.5,3.0}, CP=2.0;   /* volatile: no constant folding in doubles */
    K = vsym("k",0.2,2.0); Cph = CP;
    if(dyn){
        /* phase velocity 2; vertical slownesses rational, every one below 1 (evanescent regime) */
        G[0]=med(XA[0], XB[0], RH[0], LIQ&1, true, Cph);
        G[1]=med(XA[1], XB[1], RH[1], LIQ&2, true, Cph);
        G[2]=med(XA[2], XB[2], RH[2], LIQ&4, true, Cph);
    } else {
        G[0]=medst(2.0, 1.5, 2.0);
        G[1]=medst(3.0, 2.0, 2.5);
        G[2]=medst(5.0, 3.0, 3.0);
    }
}

/* three physical layers (third: half space, or a dummy when the bottom is free/rigid); depths measured inside a layer */
static double H[2];
typedef struct { int lay; double off; } POS;
static void build(POS S, POS R, bool rup, GRT_BOUND_TYPE top, GRT_BOUND_TYPE bot, LM *L)
{
    memset(L,0,sizeof(*L)); L->top=top; L->bot=bot; L->dyn=DYN;
    int n=0;
    for(int l=0;l<3;l++){
        double done=0; bool hasS=S.lay==l, hasR=R.lay==l;
        for(int w=0;w<2;w++){
            bool doR = (w==0)==rup;          /* the shallower of the two first */
            if(doR? !hasR : !hasS) continue;
            double o = doR? R.off : S.off;
            L->thk[n]=o-done; L->med[n]=l; n++; done=o;
            if(doR) L->ircv=n; else L->isrc=n;
        }
        L->thk[n]= l<2? H[l]-done : 0.0; L->med[n]=l; n++;
    }
    L->n=n; L->depsrc=1.0; L->deprcv=0.5;      /* only compared with zero */
}
static bool srcok(int i, int lay){ return !G[lay].liq || i==0; }       /* in a fluid only the explosion is a source */
static const char *lb(const char *p, int i, int j){ static char b[40]; int n=strlen(p); memcpy(b,p,n); b[n]='0'+i; b[n+1]='0'+j; b[n+2]=0; return b; }

static void at(POS S, POS R, bool rup, GRT_BOUND_TYPE top, GRT_BOUND_TYPE bot, RES *r){ LM L; build(S,R,rup,top,bot,&L); solve(&L,r); }

/* continuity across the interface below layer l: receivers above (in l) and below (in l+1), same side of the source */
static void pair(POS S, int l, double oa, double ob, bool rup, GRT_BOUND_TYPE top)
{
    RES a,b; POS A={l,oa}, B={l+1,ob};
    at(S,A,rup,top,GRT_BOUND_HALFSPACE,&a); at(S,B,rup,top,GRT_BOUND_HALFSPACE,&b);
    const MED *g=&G[l], *h=&G[l+1];
    for(int i=0;i<6;i++){
        if(!srcok(i,S.lay)) continue;
        prop(g, H[l]-oa, a.y[i]); prop(h, -ob, b.y[i]);
        veq(lb("cont_w",i,l), a.y[i][1], b.y[i][1]); veq(lb("cont_s",i,l), a.y[i][2], b.y[i][2]);
        if(!g->liq && !h->liq){ veq(lb("cont_q",i,l), a.y[i][0], b.y[i][0]); veq(lb("cont_t",i,l), a.y[i][3], b.y[i][3]); }
        else { if(!g->liq) veq(lb("slip_a",i,l), a.y[i][3], 0); if(!h->liq) veq(lb("slip_b",i,l), b.y[i][3], 0); }
        if(!g->liq && !h->liq){
            propv(g, H[l]-oa, a.v[i]); propv(h, -ob, b.v[i]);
            veq(lb("cont_v",i,l), a.v[i][0], b.v[i][0]); veq(lb("cont_x",i,l), a.v[i][1], b.v[i][1]);
        }
    }
}
static void topbc(POS S, double o, GRT_BOUND_TYPE top)
{
    RES a; POS A={0,o}; at(S,A,true,top,GRT_BOUND_HALFSPACE,&a);
    const MED *g=&G[0];
    for(int i=0;i<6;i++){
        if(!srcok(i,S.lay)) continue;
        if(g->liq && o==0.0){ /* nothing to propagate */ } else prop(g, -o, a.y[i]);
        if(top==GRT_BOUND_HALFSPACE){ nowave("top_rad", g, a.y[i], 1.0-2.0); }
        else if(top==GRT_BOUND_FREE){ veq("free_s", a.y[i][2], 0); if(!g->liq) veq("free_t", a.y[i][3], 0); }
        else { veq("rigid_w", a.y[i][1], 0); if(!g->liq) veq("rigid_q", a.y[i][0], 0); }
        if(!g->liq){
            propv(g, -o, a.v[i]);
            if(top==GRT_BOUND_HALFSPACE) veq("top_radv", a.v[i][1]-g->mu*g->xb*a.v[i][0], 0);
            else if(top==GRT_BOUND_FREE) veq("free_v", a.v[i][1], 0);
            else veq("rigid_v", a.v[i][0], 0);
        }
    }
}
static void botbc(POS S, POS R, GRT_BOUND_TYPE top, GRT_BOUND_TYPE bot)
{
    RES a; at(S,R,false,top,bot,&a);
    const MED *g=&G[R.lay];
    for(int i=0;i<6;i++){
        if(!srcok(i,S.lay)) continue;
        if(bot==GRT_BOUND_HALFSPACE){
            nowave("bot_rad", g, a.y[i], 1.0);
            if(!g->liq) veq("bot_radv", a.v[i][1]+g->mu*g->xb*a.v[i][0], 0);
            continue;
        }
        prop(g, H[R.lay]-R.off, a.y[i]);
        if(bot==GRT_BOUND_FREE){ veq("bfree_s", a.y[i][2], 0); if(!g->liq) veq("bfree_t", a.y[i][3], 0); }
        else { veq("brigid_w", a.y[i][1], 0); if(!g->liq) veq("brigid_q", a.y[i][0], 0); }
        if(!g->liq){ propv(g, H[R.lay]-R.off, a.v[i]); if(bot==GRT_BOUND_FREE) veq("bfree_v", a.v[i][1], 0); else veq("brigid_v", a.v[i][0], 0); }
    }
}
/* jump of displacement and traction across the source plane for the six unit sources */
static void jump(POS S, GRT_BOUND_TYPE top)
{
    RES a,b; POS R=S;
    at(S,R,true,top,GRT_BOUND_HALFSPACE,&a); at(S,R,false,top,GRT_BOUND_HALFSPACE,&b);
    const MED *g=&G[S.lay];
    double J[6][4]; memset(J,0,sizeof(J)); double V[6][2]; memset(V,0,sizeof(V));
    double l2=g->lam+2.0*g->mu;
    double F = DYN? 2.0*g->rho*g->c2*K : -2.0*g->mu/K;     /* normalisation of the kernel */
    if(g->liq){
        veq("fl_w", b.y[0][1]-a.y[0][1], -F*K/g->lam); veq("fl_s", b.y[0][2]-a.y[0][2], 0);
        return;
    }
    J[0][1]=-F*K/l2;      J[0][3]=-F*K*(1.0-g->lam/l2);      /* explosion */
    J[1][2]=F;                                               /* vertical force */
    J[2][3]=F;            V[2][1]=-F;                        /* horizontal force */
    J[3][1]=-2.0*F*K/l2;  J[3][3]=F*K*(1.0+2.0*g->lam/l2);   /* 45 degree dip slip, m=0 */
    J[4][0]=F*K/g->mu;    V[4][0]=-F*K/g->mu;                /* vertical dip slip, m=1 */
    J[5][3]=F*K;          V[5][1]=-F*K;                      /* strike slip, m=2 */
    for(int i=0;i<6;i++){
        for(int j=0;j<4;j++) veq(lb("jump",i,j), b.y[i][j]-a.y[i][j], J[i][j]);
        for(int j=0;j<2;j++) veq(lb("jumpv",i,j), b.v[i][j]-a.v[i][j], V[i][j]);
    }
}
static double e,d;
static void syms(bool dyn, int liq)
{
    LIQ=liq; setup(dyn);
    double h=vsym("h",0.2,1.5); H[0]=3.0*h; H[1]=4.0*h; d=h; e=2.0*h;      /* depths are distinct multiples of an arbitrary length */
    vassume(exp(-0.2*K*h) > 0.0);         /* fixes the common base of all exponentials */
}
static GRT_BOUND_TYPE topsel(void){ int b=vint("top",0,2); return b==0?GRT_BOUND_FREE:(b==1?GRT_BOUND_RIGID:GRT_BOUND_HALFSPACE); }

static void scen_jump(bool dyn, int liq){
    syms(dyn,liq); 
    POS S={vint("s",0,2), e}; jump(S, topsel()); vreach("end"); }
static void scen_pair(bool dyn, int liq, int sc){
    syms(dyn,liq); 
    GRT_BOUND_TYPE T=topsel();
    if(sc==0){ POS S={0,d}; pair(S,0,e,e,false,T); }          /* source above */
    if(sc==1){ POS S={0,d}; pair(S,1,e,e,false,T); }
    if(sc==2){ POS S={1,e}; pair(S,0,e,d,true,T); }
    if(sc==3){ POS S={1,d}; pair(S,1,e,e,false,T); }
    if(sc==4){ POS S={2,e}; pair(S,0,e,e,true,T); }           /* source in the half space */
    if(sc==5){ POS S={2,e}; pair(S,1,e,d,true,T); }
    vreach("end"); }
static void scen_top(bool dyn, int liq){
    syms(dyn,liq); 
    int z=vint("surf",0,1);
    POS S={vint("s",0,2), e}; topbc(S, z?0.0:d, topsel()); vreach("end"); }
static void scen_bot(bool dyn, int liq){
    syms(dyn,liq); 
    int sc=vint("sc",0,6); GRT_BOUND_TYPE T=topsel();
    POS S={sc%3, d};
    if(sc<3){ POS R={2,e}; botbc(S,R,T,GRT_BOUND_HALFSPACE); }
    else { int s=(sc-3)%2; S.lay=s; POS R={1,e}; botbc(S,R,T,sc<5?GRT_BOUND_FREE:GRT_BOUND_RIGID); }
    vreach("end"); }
#define SC(N,dyn,liq) void h_jump_##N(void){scen_jump(dyn,liq);} void h_top_##N(void){scen_top(dyn,liq);} void h_bot_##N(void){scen_bot(dyn,liq);} \
  void h_pair0_##N(void){scen_pair(dyn,liq,0);} void h_pair1_##N(void){scen_pair(dyn,liq,1);} void h_pair2_##N(void){scen_pair(dyn,liq,2);} \
  void h_pair3_##N(void){scen_pair(dyn,liq,3);} void h_pair4_##N(void){scen_pair(dyn,liq,4);} void h_pair5_##N(void){scen_pair(dyn,liq,5);}
SC(st,false,0)
SC(dyn,true,0)
SC(lss,true,1)
SC(sls,true,2)
SC(ssl,true,4)
SC(lls,true,3)

/* source and receiver both at the surface: the same medium described with and without the exact zero depths */
static void scen_surf(bool dyn, int liq){
    syms(dyn,liq); GRT_BOUND_TYPE T=topsel();
    POS S={0,0.0}, R={0,0.0}; LM A,B; RES a,b;
    build(S,R,true,T,GRT_BOUND_HALFSPACE,&A); B=A; A.depsrc=A.deprcv=0.0;
    solve(&A,&a); solve(&B,&b);
    for(int i=0;i<6;i++){ if(!srcok(i,0)) continue;
        /* a vertical dip-slip source on a free surface radiates nothing away from the epicentre */
        if(i==4 && T==GRT_BOUND_FREE && !G[0].liq){
            for(int j=0;j<4;j++) veq(lb("ds0",i,j), a.y[i][j], 0);
            for(int j=0;j<2;j++) veq(lb("ds0v",i,j), a.v[i][j], 0);
            veq("ds_w", b.y[i][1], 0); veq("ds_s", b.y[i][2], 0); veq("ds_t", b.y[i][3], 0); veq("ds_x", b.v[i][1], 0);
            veq("ds_qv", b.y[i][0]+b.v[i][0], 0);        /* what remains is a point at the origin */
            continue;
        }
        for(int j=0;j<4;j++) veq(lb("surf",i,j), a.y[i][j], b.y[i][j]);
        for(int j=0;j<2;j++) veq(lb("surfv",i,j), a.v[i][j], b.v[i][j]); }
    vreach("end"); }
void h_surf_st(void){ scen_surf(false,0); }
void h_surf_dyn(void){ scen_surf(true,0); }
void h_surf_lss(void){ scen_surf(true,1); }
