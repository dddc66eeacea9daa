/* Dynamic interface / boundary reflection-transmission coefficients: continuity of displacement and traction. */
#include "verif.h"
#include "grt.h"

/* amplitudes ordered (up P, up S, down P, down S); rows (q, w, sigma_R, tau_R) */
static void layer_D(bool liq, double complex xa, double complex xb, double complex mu, double rho, double complex c2, double k, double complex D[4][4])
{
    memset(D, 0, sizeof(double complex)*16);
    if(!liq){
        double complex g = mu*(1.0 + xb*xb);   /* 2 mu (1 - cbcb/2), cbcb = 1 - xb^2 */
        D[0][0]=1;        D[0][1]=xb;          D[0][2]=1;         D[0][3]=-xb;
        D[1][0]=xa;       D[1][1]=1;           D[1][2]=-xa;       D[1][3]=1;
        D[2][0]=g;        D[2][1]=2*mu*xb;     D[2][2]=g;         D[2][3]=-2*mu*xb;
        D[3][0]=2*mu*xa;  D[3][1]=g;           D[3][2]=-2*mu*xa;  D[3][3]=g;
    } else {
        D[0][0]=1;        D[0][2]=1;
        D[1][0]=xa;       D[1][2]=-xa;
        D[2][0]=-rho*c2;  D[2][2]=-rho*c2;
    }
    (void)k;
}

typedef struct { double complex xa, xb, mu; double rho, thk; bool liq; } LAY;

static MODEL1D_STATE *mkstate(int n, const LAY *L, double complex c, double k)
{
    MODEL1D *m = grt_init_mod1d(n);
    MODEL1D_STATE *s = grt_init_mod1d_state(m);
    s->k = k; s->c_phase = c; s->omega = c*k;
    for(int i=0;i<n;i++){
        m->Thk[i]=L[i].thk; m->Rho[i]=L[i].rho; m->isLiquid[i]=L[i].liq;
        s->xa[i]=L[i].xa; s->xb[i]=L[i].xb; s->mu[i]=L[i].mu; s->cbcb[i]=L[i].liq?0.0:1.0-L[i].xb*L[i].xb;
    }
    return s;
}

static void names(char *b, const char *p, int i){ b[0]=p[0]; b[1]=p[1]; b[2]='1'+i; b[3]=0; }
static double sy(const char *p, int i, double lo, double hi){ char b[8]; names(b,p,i); return vsym(b,lo,hi); }

static void mklay(LAY *L, int i, bool liq, double complex c2)
{
    L->liq = liq;
    L->xa = sy("xa",i,0.05,0.95); L->rho = sy("rh",i,0.5,5);
    L->thk = sy("th",i,0.1,5);
    if(liq){ L->xb = 1.0; L->mu = 0.0; }
    else { L->xb = sy("xb",i,0.05,0.95); L->mu = L->rho*c2/(1.0-L->xb*L->xb); }
}
static const char *lab(const char *a, int i, int j){ static char b[32]; int n=strlen(a); memcpy(b,a,n); b[n]='0'+i; b[n+1]='0'+j; b[n+2]=0; return b; }
static void ceq(const char *l, double complex a, double complex b){ veq(l, creal(a), creal(b)); veq(l, cimag(a), cimag(b)); }

/* one interface: every row of continuity, down- and up-going incidence */
static void check_interface(bool l1, bool l2, bool delayed)
{
    double c = vsym("c",0.3,3), k = vsym("k",0.1,4);
    LAY L[2]; mklay(&L[0],0,l1,c*c); mklay(&L[1],1,l2,c*c);
    MODEL1D_STATE *s = mkstate(2,L,c,k);
    RT_MATRIX M; memset(&M,0,sizeof(M));
    grt_RT_matrix_PSV(s,1,&M);
    grt_RT_matrix_SH(s,1,&M);
    vassume(M.stats == GRT_INVERSE_SUCCESS);
    double ea=1, eb=1;
    if(delayed){
        int w = vint("which",0,1);
        if(w==0) grt_delay_RT_matrix(s,1,&M);
        else { grt_delay_RT_matrix_PSV(s,1,&M); grt_delay_RT_matrix_SH(s,1,&M); }
        ea = exp(-k*L[0].thk*creal(L[0].xa)); eb = exp(-k*L[0].thk*creal(L[0].xb));
    }
    double complex D1[4][4], D2[4][4];
    layer_D(l1,L[0].xa,L[0].xb,L[0].mu,L[0].rho,c*c,k,D1);
    layer_D(l2,L[1].xa,L[1].xb,L[1].mu,L[1].rho,c*c,k,D2);
    double e[2] = {ea, eb};
    for(int inc=0; inc<2; inc++){
        if(!(l1 && inc==1)){
            /* down-going unit wave leaving the top of layer 1; amplitudes at the interface carry e^-nu h */
            for(int r=0;r<4;r++){
                if(r==0 && (l1||l2)) continue;       /* tangential slip is free at a fluid interface */
                double complex lhs = D1[r][2+inc]*e[inc], rhs = 0;
                for(int j=0;j<2;j++){ lhs += D1[r][j]*M.RD[j][inc]/e[j]; rhs += D2[r][2+j]*M.TD[j][inc]; }
                ceq(lab("down",r,inc), lhs, rhs);
            }
        }
        if(!(l2 && inc==1)){
            for(int r=0;r<4;r++){
                if(r==0 && (l1||l2)) continue;
                double complex lhs = 0, rhs = D2[r][inc];
                for(int j=0;j<2;j++){ lhs += D1[r][j]*M.TU[j][inc]/e[j]; rhs += D2[r][2+j]*M.RU[j][inc]; }
                ceq(lab("up",r,inc), lhs, rhs);
            }
        }
    }
    /* no S wave lives in a fluid */
    if(l1) for(int j=0;j<2;j++){ ceq("noS1", M.RD[1][j], 0); ceq("noS2", M.RD[j][1], 0); ceq("noS3", M.TU[1][j], 0); ceq("noS4", M.TD[j][1], 0); }
    if(l2) for(int j=0;j<2;j++){ ceq("noS5", M.RU[1][j], 0); ceq("noS6", M.RU[j][1], 0); ceq("noS7", M.TD[1][j], 0); ceq("noS8", M.TU[j][1], 0); }
    /* SH: displacement (1,1), traction mu*xb*(1,-1) for (up,down) */
    if(!l1 && !l2){
        double complex t1 = L[0].mu*L[0].xb, t2 = L[1].mu*L[1].xb;
        ceq("sh_du", e[1] + M.RDL/e[1], M.TDL);          ceq("sh_dt", t1*(M.RDL/e[1] - e[1]), -t2*M.TDL);
        ceq("sh_uu", M.TUL/e[1], 1 + M.RUL);             ceq("sh_ut", t1*M.TUL/e[1], t2*(1 - M.RUL));
    } else {
        ceq("sh_TD", M.TDL, 0); ceq("sh_TU", M.TUL, 0);
        if(!l1) ceq("sh_free", M.RDL/e[1], e[1]); else ceq("sh_none", M.RDL, 0);
        if(!l2) ceq("sh_free2", M.RUL, 1); else ceq("sh_none2", M.RUL, 0);
    }
    vreach("end");
}

void h_ss(void){ check_interface(false,false,false); }
void h_ll(void){ check_interface(true,true,false); }
void h_ls(void){ check_interface(true,false,false); }
void h_sl(void){ check_interface(false,true,false); }
void h_ss_delay(void){ check_interface(false,false,true); }
void h_ll_delay(void){ check_interface(true,true,true); }
void h_ls_delay(void){ check_interface(true,false,true); }
void h_sl_delay(void){ check_interface(false,true,true); }

/* boundaries: free (no traction), rigid (no displacement), half space (no reflection) at top and bottom */
static void check_boundary(bool liq, bool top)
{
    double c = vsym("c",0.3,3), k = vsym("k",0.1,4);
    int bt = vint("bound",0,2);
    GRT_BOUND_TYPE T = bt==0?GRT_BOUND_FREE:(bt==1?GRT_BOUND_RIGID:GRT_BOUND_HALFSPACE);
    LAY L[3]; mklay(&L[0],0,liq,c*c);
    L[1]=L[0]; L[2]=L[0];
    if(!top){ mklay(&L[1],1,liq,c*c); mklay(&L[2],2,false,c*c); }
    MODEL1D_STATE *s = mkstate(3,L,c,k);
    s->mod1d->topbound = s->mod1d->botbound = T;
    double complex R[2][2], RL; double ea=1, eb=1; LAY *B;
    if(top){
        grt_topbound_RU_PSV(s); int st1 = s->M_top.stats; grt_topbound_RU_SH(s);
        vassume(st1==GRT_INVERSE_SUCCESS);
        memcpy(R, s->M_top.RU, sizeof(R)); RL = s->M_top.RUL; B=&L[0];
    } else {
        grt_botbound_RD_PSV(s); int st1 = s->M_bot.stats; grt_botbound_RD_SH(s);
        vassume(st1==GRT_INVERSE_SUCCESS);
        memcpy(R, s->M_bot.RD, sizeof(R)); RL = s->M_bot.RDL; B=&L[1];
        ea = exp(-k*B->thk*creal(B->xa)); eb = exp(-k*B->thk*creal(B->xb));
    }
    double e[2] = {ea,eb};
    double complex D[4][4], D2[4][4];
    layer_D(liq,B->xa,B->xb,B->mu,B->rho,c*c,k,D);
    int i0 = top?0:2, r0 = top?2:0;            /* incident columns, reflected columns */
    if(bt==2 && top){
        for(int i=0;i<2;i++) for(int j=0;j<2;j++) ceq("half", R[i][j], 0);
        ceq("halfL", RL, 0);
    } else if(bt==2){
        /* bottom half space: same as the interface coefficients of the last pair */
        RT_MATRIX M; memset(&M,0,sizeof(M));
        grt_RT_matrix_PSV(s,2,&M); grt_RT_matrix_SH(s,2,&M);
        vassume(M.stats==GRT_INVERSE_SUCCESS);
        for(int i=0;i<2;i++) for(int j=0;j<2;j++) ceq("halfb", R[i][j], M.RD[i][j]*e[i]*e[j]);
        ceq("halfbL", RL, M.RDL*eb*eb);
        (void)D2;
    } else {
        for(int inc=0; inc<(liq?1:2); inc++)
            for(int r=0;r<4;r++){
                bool need = bt==0 ? r>=2 : r<2;
                if(liq && (r==3 || r==0)) need=false;
                if(!need) continue;
                double complex v = D[r][i0+inc]*e[inc];
                for(int j=0;j<2;j++) v += D[r][r0+j]*R[j][inc]/e[j];
                ceq(lab("bc",r,inc), v, 0);
            }
        if(liq){ ceq("liq01",R[0][1],0); ceq("liq10",R[1][0],0); ceq("liq11",R[1][1],0); ceq("liqL",RL,0); }
        else ceq("shbc", RL, (bt==0?1.0:-1.0)*eb*eb);
    }
    vreach("end");
}
void h_top_solid(void){ check_boundary(false,true); }
void h_top_liquid(void){ check_boundary(true,true); }
void h_bot_solid(void){ check_boundary(false,false); }
void h_bot_liquid(void){ check_boundary(true,false); }
