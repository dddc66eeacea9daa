/* Modal Green's functions: the real driver over frequencies and modes, with stand-ins that supply arbitrary wave amplitudes and energy integrals
 * (these are decided in modal.c). */
#include "verif.h"
#include "grt.h"
#include "grt/modal/secular.h"
#include "grt/modal/eigenfn.h"
#include "grt/modal/energy.h"
#define grt_secular_function_potential my_potential
#define grt_get_mod_potential_Up_Down my_updown
#define grt_energy_integrals my_energy
static void my_potential(const MODEL1D_STATE *m, const real_t c, const size_t iref, const DISPER_TYPE wt, cplx_t *sec, cplx_t *p, cplx_t *pu);
static void my_updown(const MODEL1D_STATE *m, const DISPER_TYPE wt, const size_t nc, const size_t iref, const cplx_t p[nc], const cplx_t pu[nc], cplx_t (*dn)[nc], cplx_t (*up)[nc]);
static void my_energy(const MODEL1D_STATE *m, const DISPER_TYPE wt, const size_t nc, const cplx_t (*dn)[nc], const cplx_t (*up)[nc], const EIGENFN_INFO *E, EIGENFN *F);
#include "modal/modgrn.c"
#undef grt_secular_function_potential
#undef grt_get_mod_potential_Up_Down
#undef grt_energy_integrals
#include "modal.c"

/* ------------------------------------------------------------------ modal Green's functions
 * Residue of the wavenumber integral: motion at the receiver times motion (or strain) at the source over twice 4 I2 - 2 I3/k, far-field Hankel function. */
static cx XSA[3], XSB[3];
static void column(const cx *dn, const cx *up, int nc, bool love, int lay, double off, cx y[4])      /* motion and traction/k from the wave amplitudes */
{
    const MED *g=&G[lay]; int h=nc/2; bool hs=lay==N-1; memset(y,0,4*sizeof(cx));
    cx xb=xw(g->xb,g->ob); if(g->ob && cimag(XSB[lay])<0.0) xb=-xb;      /* either root describes the same pair of waves: amplitudes refer to the one used */
    if(love){ if(g->liq) return; cx x=xb, d=dn[lay*nc+1]*cexp(-K*x*off), u= hs?0:up[(lay+1)*nc]*cexp(-K*x*(H[lay]-off)); y[0]=K*(d+u); y[1]=K*g->mu*x*(u-d); return; }
    cx xa=xw(g->xa,g->oa); if(g->oa && cimag(XSA[lay])<0.0) xa=-xa;
    for(int t=0;t<(g->liq?1:2);t++){ cx x= t==0? xa : xb, d=dn[lay*nc+h+t]*cexp(-K*x*off), u= hs?0:up[(lay+1)*nc+t]*cexp(-K*x*(H[lay]-off));
        for(int up_=-1;up_<=1;up_+=2){ cx c= up_<0? d : u, e=(double)up_*x;
            if(t==0){ y[0]+=K*c; y[1]+=K*c*e; y[3]+=K*c*2.0*e*g->mu; y[2]+=K*c*((g->lam+2.0*g->mu)*sq(g->xa,g->oa)-g->lam); }
            else { y[1]+=K*c; y[0]+=K*c*e; y[2]+=K*c*2.0*g->mu*e; y[3]+=K*c*g->mu*(sq(g->xb,g->ob)+1.0); } } }
}
static DISPER_TYPE WTY; static int NC, CNT[4]; static double FQ1, K1; static cx DN[4][2][12], UP[4][2][16]; static double I2[4][2], I3[4][2];
static int frq(const MODEL1D_STATE *m){ int w=0; for(int i=1;i<4;i++) if(creal(m->omega)==6.283185307179586476925286766559*(FQ1*i)) w=i; vtrue("frequency",w>0); ceq("wavenumber",m->k,K1*w); veq("phase",m->c_phase,Cph); return w; }
static void my_potential(const MODEL1D_STATE *m, const real_t c, const size_t iref, const DISPER_TYPE wt, cplx_t *sec, cplx_t *p, cplx_t *pu)
{ int w=frq(m); vtrue("type",wt==WTY); vtrue("reference",(int)iref==CNT[w]); veq("speed",c,Cph); *sec=0; p[0]=7.0+CNT[w]; pu[0]=9.0+CNT[w]; }
static void my_updown(const MODEL1D_STATE *m, const DISPER_TYPE wt, const size_t nc, const size_t iref, const cplx_t p[nc], const cplx_t pu[nc], cplx_t (*dn)[nc], cplx_t (*up)[nc])
{
    int w=frq(m), c=CNT[w], h=NC/2; vtrue("type",wt==WTY&&(int)nc==NC); vtrue("reference",(int)iref==c); vtrue("potential",creal(p[0])==7.0+c&&creal(pu[0])==9.0+c);
    for(int i=0;i<N;i++){ XSA[i]=m->xa[i]; XSB[i]=m->xb[i]; }
    for(int i=0;i<N;i++){ if(WTY==GRT_DISPERSION_LOVE&&G[i].liq) continue;
        for(int l=0;l<h;l++){ if(WTY!=GRT_DISPERSION_LOVE&&G[i].liq&&l==1) continue;
            char b[8]={'d','0'+w,'0'+c,'0'+i,'0'+l,0}; DN[w][c][i*NC+h+l]=dn[i][h+l]=vsym(b,-2,2); if(i<N-1){ b[0]='u'; UP[w][c][(i+1)*NC+l]=up[i+1][l]=vsym(b,-2,2); } } }
}
static void my_energy(const MODEL1D_STATE *m, const DISPER_TYPE wt, const size_t nc, const cplx_t (*dn)[nc], const cplx_t (*up)[nc], const EIGENFN_INFO *E, EIGENFN *F)
{
    int w=frq(m), c=CNT[w]; (void)E; vtrue("type",wt==WTY&&(int)nc==NC); for(int i=0;i<N;i++) for(int l=NC/2;l<NC;l++){ ceq("amp",dn[i][l],DN[w][c][i*NC+l]); if(i<N-1) ceq("amp",up[i+1][l-NC/2],UP[w][c][(i+1)*NC+l-NC/2]); }
    char b[8]={'I','2','_','0'+w,'0'+c,0}; I2[w][c]=vsym(b,0.5,3); b[1]='3'; I3[w][c]= wt==GRT_DISPERSION_LOVE? 0 : vsym(b,-0.02,0.02); b[1]='o';
    F->egyint[1]=I2[w][c]; F->egyint[2]= wt==GRT_DISPERSION_LOVE? (cx)11.0 : (cx)I3[w][c]; F->egyint[0]=F->egyint[3]=5.0; CNT[w]++;
}
/* motion per unit source for one mode, without the radial function: e (value) and ez (depth derivative) for each source and component */
static void residue(const cx *dn, const cx *up, double i2, double i3, int ls, double os, int lr, double orr, bool surf, cx e[6][3], cx ez[6][3])
{
    bool love= WTY==GRT_DISPERSION_LOVE; memset(e,0,18*sizeof(cx)); memset(ez,0,18*sizeof(cx));
    cx ys[4],yr[4]; column(dn,up,NC,love,ls,os,ys); column(dn,up,NC,love,lr,orr,yr);
    const MED *g=&G[ls]; cx B[6]; memset(B,0,sizeof(B));
    if(love){ B[2]=-ys[0]; B[4]=K*ys[1]/g->mu; B[5]=-K*ys[0]; }
    else if(g->liq){ B[0]=K*ys[2]/g->lam; }
    else { double l2=g->lam+2.0*g->mu; cx wp=(g->lam*ys[0]+ys[2])/l2; B[0]=K*(wp-ys[0]); B[1]=ys[1]; B[2]=ys[0]; B[3]=K*(ys[0]+2.0*wp); B[4]=-K*ys[3]/g->mu; B[5]=K*ys[0]; }
    if(surf) B[4]=0;
    cx dr[4]; const MED *q=&G[lr];
    if(love){ dr[0]= q->liq? 0 : K*yr[1]/q->mu; }
    else if(q->liq){ dr[1]=K*yr[2]*(1.0/q->lam-1.0/(q->rho*q->c2)); dr[0]=K*yr[1]; yr[0]=-yr[2]/(q->rho*q->c2); }
    else { cx m[4]; Mmul(q,yr,m); dr[0]=K*m[0]; dr[1]=K*m[1]; }
    cx dom=2.0*(4.0*i2-2.0*i3/K), j=1.0*_Complex_I, im_[3]={1,j,-1};
    for(int im=0;im<6;im++){ int m=GRT_SRC_M_ORDERS[im]; if(love&&m==0) continue; cx f=B[im]*im_[m]/dom;
        if(love){ e[im][2]=f*j*yr[0]; ez[im][2]=f*j*dr[0]; } else { e[im][0]=f*yr[1]; ez[im][0]=f*dr[1]; e[im][1]=-f*j*yr[0]; ez[im][1]=-f*j*dr[0]; } }
}
static void modgrn(DISPER_TYPE wt, int n, int fluid, int osc, int ls, double fs, int lr, double fr, bool surf, int lo, int hi, int nm)
{
    WTY=wt; NC= wt==GRT_DISPERSION_LOVE?2:4; media(n,fluid,osc); syms(); model(); grt_free_mod1d_state(S); K1=K; FQ1=Cph*K1/6.283185307179586476925286766559;
    double os= surf?0:H[0]*fs, orr= surf?0:H[0]*fr; M->isrc=ls; M->ircv=lr; M->depsrc=M->Dep[ls]+os; M->deprcv=M->Dep[lr]+orr;
    EIGENFN_INFO E; memset(&E,0,sizeof(E)); EIGENV V[3]; memset(V,0,sizeof(V)); EIGENFN F[3][2]; memset(F,0,sizeof(F)); EIGENFN *FP[3]; double fq[3], cr[2]={Cph,Cph}; size_t ci[2]={0,1};
    E.wtype=wt; E.nf=hi-lo+1; E.freqs=fq; E.eigv=V; E.eigfn=FP; E.cpar_nz=n; for(int i=lo;i<=hi;i++){ fq[i-lo]=FQ1*i; V[i-lo].n= i==lo? nm:1; V[i-lo].c_roots=cr; V[i-lo].c_roots_iref=ci; FP[i-lo]=F[i-lo]; }
    GRNSPEC gr; memset(&gr,0,sizeof(gr)); double rs[2]={2.0*H[0],3.0*H[0]}, gf[4]={0,FQ1,FQ1*2,FQ1*3}; gr.nf=4; gr.freqs=gf; gr.nf2=3; gr.nr=2; gr.rs=rs; gr.calc_upar=true; grt_grnspec_allocate_u(&gr);
    grt_modsum_grn_spec(M, wt, &E, &gr);
    for(int iw=0;iw<4;iw++){
        if(iw<lo||iw>hi){ for(int ir=0;ir<2;ir++)for(int im=0;im<6;im++)for(int c=0;c<3;c++){ ceq("empty",gr.u[ir][im][c][iw],0); ceq("empty",gr.uir[ir][im][c][iw],0); ceq("empty",gr.uiz[ir][im][c][iw],0); } continue; }
        int mm= iw==lo? nm:1; vtrue("modes",CNT[iw]==mm); K=K1*iw; cx e[2][6][3],z[2][6][3]; double sc=1;
        for(int c=0;c<mm;c++){ residue(DN[iw][c],UP[iw][c],I2[iw][c],I3[iw][c],ls,os,lr,orr,surf,e[c],z[c]); sc*=4.0*I2[iw][c]-2.0*I3[iw][c]/K; }
        for(int ir=0;ir<2;ir++){ double r=rs[ir]; cx ek=sqrt(2.0/(M_PI*K*r))*cexp(-1.0*_Complex_I*(K*r+M_PI/4.0));
            for(int im=0;im<6;im++){ if(G[ls].liq && im>0) continue; if(wt==GRT_DISPERSION_LOVE&&GRT_SRC_M_ORDERS[im]==0) continue;
                for(int c=0;c<3;c++){ if((wt==GRT_DISPERSION_LOVE)!=(c==2)) continue; cx a=e[0][im][c], b=z[0][im][c]; if(mm==2){ a+=e[1][im][c]; b+=z[1][im][c]; }
                    ceq(lb("u",im,c), gr.u[ir][im][c][iw]*sc, a*ek*sc); ceq(lb("ur",im,c), gr.uir[ir][im][c][iw]*sc, -1.0*_Complex_I*K*a*ek*sc); ceq(lb("uz",im,c), gr.uiz[ir][im][c][iw]*sc, b*ek*sc); } } }
    }
    vreach("end");
}
#define LV GRT_DISPERSION_LOVE
#define RY GRT_DISPERSION_RAYL
void h_love(void){ modgrn(LV,2,0,2,0,0.5,1,0.5,false,1,2,2); }
void h_love_off(void){ modgrn(LV,3,1,8,1,0.5,1,1.0,false,2,3,1); }
void h_love_fr(void){ modgrn(LV,2,1,0,1,0.5,0,0.5,false,1,1,1); }
void h_love_s(void){ modgrn(LV,2,0,2,0,0,0,0,true,1,1,1); }
void h_ray(void){ modgrn(RY,2,0,2,0,0.5,1,0.5,false,1,1,1); }
void h_ray_up(void){ modgrn(RY,2,0,0,1,0.5,0,0.5,false,1,1,2); }
void h_ray_off(void){ modgrn(RY,2,0,0,1,0.0,0,0.0,false,2,3,1); }
void h_ray_fr(void){ modgrn(RY,2,1,0,1,0.5,0,0.5,false,1,1,1); }
void h_ray_fs(void){ modgrn(RY,2,1,1,0,0.5,1,0.0,false,1,2,1); }
void h_ray_s(void){ modgrn(RY,2,0,2,0,0,0,0,true,1,1,1); }
