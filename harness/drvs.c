/* From the wavenumber integral to static Green functions: settings, scale, duplicate distances. */
#include "verif.h"
#include "grt.h"
#include "grt/integral/integ_process.h"
#include "grt/integral/kmax.h"
#include "grt/static/static_grn.h"
static K_INTEG *my_integral(MODEL1D_STATE *m, size_t nr, real_t *rs, K_INTEG_PROCESS *K, bool upar, GRT_KernelFunc ker);
static real_t my_kmax(MODEL1D_STATE *m, GRT_KernelFunc ker, real_t k0, real_t klow, real_t kref, size_t *n);
#define grt_wavenumber_integral my_integral
#define grt_predict_kmax my_kmax
#define grt_integ_static_grn T_integ_static_grn
#include "static/static_grn.c"
enum { NR=4 };
static MODEL1D *M; static K_INTEG_PROCESS P; static double R[NR]; static int nR=NR; static bool UP, SAME, SEARCH; static double DK0=0.01; static int CVG, CALLS, SEARCHED, lim; static double KX, DKU, UR[NR]; static int nU;
static cplxIntegGrid S[3][NR]; static int OMm[6]={0,0,1,0,1,2};
static real_t my_kmax(MODEL1D_STATE *m, GRT_KernelFunc ker, real_t k0, real_t klow, real_t kref, size_t *n)
{
    (void)m; vtrue("search_kernel",ker==grt_static_kernel); vtrue("searches",SEARCH); SEARCHED++; veq("search_start",k0,P.dk); vtrue("search_low",klow>=0&&klow<=kref); veq("search_ref",kref,P.k0);
    KX= lim==1? kref : lim==2? vsym("kx",4.981,5.009) : vsym("kx",6.1401,6.1499); if(n) *n=3; return KX;
}
static K_INTEG *my_integral(MODEL1D_STATE *m, size_t nr, real_t *rs, K_INTEG_PROCESS *K, bool upar, GRT_KernelFunc ker)
{
    CALLS++; vtrue("model",m->mod1d==M); vtrue("kernel",ker==grt_static_kernel); vtrue("upar",upar==UP); vtrue("count",nr<=(size_t)nR); nU=nr; for(size_t i=0;i<nr;i++) UR[i]=rs[i];
    veq("kmax",K->kmax,SEARCH?KX:P.k0); int want=CVG; double ke=P.keps; if(CVG==K_INTEG_CONVERG_AUTO&&(SAME||(SEARCH&&KX>=P.k0))){ want=K_INTEG_CONVERG_DCM; ke=0; } vtrue("convergence",(int)K->cvgmet==want); vtrue("keps",K->keps==ke);
    vtrue("settings",K->kcut==P.kcut&&K->applyFIM==P.applyFIM&&K->filondk==P.filondk&&K->applySAFIM==P.applySAFIM&&K->sa_tol==P.sa_tol);
    DKU=K->dk; vtrue("dk_max",K->dk<=P.dk); vtrue("dk_fine",K->kmax>=498.999*K->dk); if(K->kmax>=499*P.dk) vtrue("dk_kept",K->dk==P.dk);
    K_INTEG *I3=grt_init_K_INTEG(upar,nr); char b[32];
    for(int t=0;t<(upar?3:1);t++) for(size_t ir=0;ir<nr;ir++) for(int im=0;im<6;im++) for(int v=0;v<4;v++){ if(OMm[im]==0&&v!=0&&v!=2) continue; snprintf(b,32,"s%d_%d_%d_%d",t,(int)ir,im,v); double x=vsym(b,-9,9), y=0; if(ir==0){ snprintf(b,32,"t%d_%d_%d",t,im,v); y=vsym(b,-9,9); } S[t][ir][im][v]=x+I*y; (t==0?I3->sumJ:t==1?I3->sumJz:I3->sumJr)[ir][im][v]=S[t][ir][im][v]; }
    return I3;
}
static void run(void)
{
    SAME=vint("same",0,1); double vs=vsym("vs",2,3.9), ro=vsym("rho",1,5); FILE *f=fopen("m","w"); fprintf(f,"9 6 %s %s 1000 500\n0 8 4 3.3 900 450\n",vstr(vs),vstr(ro)); fclose(f); M=grt_read_mod1d_from_file("m",4,SAME?4:1,false);
    memset(&P,0,sizeof(P)); P.k0=7; P.keps= CVG==K_INTEG_CONVERG_AUTO? 0.25:0; P.dk=DK0; P.kcut=0.7; P.use_kmax_ref=!SEARCH; P.cvgmet=CVG; K_INTEG_PROCESS K=P;
    static realChnlGrid g[3][NR]; memset(g,0,sizeof(g)); double r0[NR]; memcpy(r0,R,sizeof(R));
    T_integ_static_grn(M,nR,R,&K,UP,g[0],UP?g[1]:NULL,UP?g[2]:NULL,NULL);
    vtrue("once",CALLS==1&&SEARCHED==(SEARCH?1:0)); double mu=vs*vs*ro;
    for(int i=0;i<nR;i++){ vtrue("kept",R[i]==r0[i]); int j=-1; for(int q=0;q<nU;q++) if(UR[q]==R[i]) j=q; vtrue("computed",j>=0); if(j<0) continue;
        for(int t=0;t<(UP?3:1);t++){ cplxChnlGrid e={{0}}; grt_merge_Pk(S[t][j],e); for(int im=0;im<6;im++)for(int q=0;q<3;q++){ double w= OMm[im]==0&&q==2? 0: creal(e[im][q])*DKU/(4*PI*mu); veq("value",g[t][i][im][q],w); } } }
    vreach("end");
}
static void dist(int k){ /* k: pattern of equal distances */ static const int PT[5][4]={{0,1,2,3},{0,0,1,1},{0,1,0,2},{0,1,1,0},{0,1,2,1}}; double d[4]={vsym("r0",0,2),vsym("r1",3,5),vsym("r2",6,8),vsym("r3",9,11)}; for(int i=0;i<nR;i++) R[i]=d[PT[k][i]]; }
void h_auto(void){ nR=2; dist(0); SEARCH=true; CVG=K_INTEG_CONVERG_AUTO; lim=vint("lim",0,2); run(); }
void h_upar(void){ nR=3; dist(vint("pattern",0,4)); UP=true; SEARCH=true; CVG=K_INTEG_CONVERG_AUTO; lim=0; run(); }
void h_dist(void){ dist(vint("pattern",0,4)); SEARCH=true; CVG=K_INTEG_CONVERG_AUTO; lim=0; run(); }
void h_dcm(void){ nR=1; dist(0); SEARCH=true; CVG=vint("method",1,3); lim=1; run(); }
void h_ref_coarse(void){ DK0=3; CVG=K_INTEG_CONVERG_AUTO; SEARCH=false; nR=1; dist(0); run(); }
void h_ref(void){ nR=1; dist(0); SEARCH=false; CVG=vint("method",0,3); run(); }
