/* From the wavenumber integral to a spectrum, one frequency at a time: the real driver with the integral and the
 * upper-limit search replaced by stand-ins that record what they are asked for and return arbitrary values. */
#ifndef _OPENMP
#define _OPENMP 201511      /* as built: every frequency works on its own copy of the settings */
#endif
#include "verif.h"
#include "grt.h"
#include "grt/integral/integ_process.h"
#include "grt/integral/kmax.h"
#include "grt/dynamic/grn.h"
static K_INTEG *my_integral(MODEL1D_STATE *m, size_t nr, real_t *rs, K_INTEG_PROCESS *K, bool upar, GRT_KernelFunc ker);
static real_t my_kmax(MODEL1D_STATE *m, GRT_KernelFunc ker, real_t k0, real_t klow, real_t kref, size_t *n);
#define grt_wavenumber_integral my_integral
#define grt_predict_kmax my_kmax
#define grt_integ_grn_spec T_integ_grn_spec
#include "dynamic/grn.c"
enum { NF=5 };
static MODEL1D *M; static GRNSPEC Gs; static K_INTEG_PROCESS P; static double R[2]={3,8}; static bool UP, SAME, SEARCH; static double DK0=0.01; static int CVG, CALLS[NF], SEARCHED[NF]; static double KREF[NF], KX[NF], DKU[NF], WIm; static int lim;
static cplxIntegGrid S[NF][3][2]; static int OMm[6]={0,0,1,0,1,2};
static int which(MODEL1D_STATE *m){ int w=-1; for(int i=0;i<NF;i++) if(creal(m->omega)==6.283185307179586476925286766559*Gs.freqs[i]) w=i; vtrue("frequency",w>=0&&w<NF); if(w<0) return 0; veq("damping",cimag(m->omega),-WIm); return w; }
static real_t my_kmax(MODEL1D_STATE *m, GRT_KernelFunc ker, real_t k0, real_t klow, real_t kref, size_t *n)
{
    int i=which(m); vtrue("search_kernel",ker==grt_kernel); vtrue("searches",SEARCH); SEARCHED[i]++; veq("search_start",k0,P.dk); vtrue("search_low",klow>=0&&klow<=kref); veq("search_ref",kref*kref,P.k0*P.k0+P.ampk*P.ampk*creal(m->omega)*creal(m->omega)/(P.vmin*P.vmin)); KREF[i]=kref;
    char b[8]; snprintf(b,8,"kx%d",i); KX[i]= lim==1? kref : lim==2? vsym(b,4.981,5.009) : i==0? vsym(b,2.1401,2.1499) : vsym(b,6.1401,6.1499); if(lim!=1) vassume(KX[i]<kref); if(n) *n=3; return KX[i];
}
static K_INTEG *my_integral(MODEL1D_STATE *m, size_t nr, real_t *rs, K_INTEG_PROCESS *K, bool upar, GRT_KernelFunc ker)
{
    int i=which(m); CALLS[i]++; vtrue("model",m->mod1d==M); vtrue("kernel",ker==grt_kernel); vtrue("distances",nr==2&&rs[0]==R[0]&&rs[1]==R[1]); vtrue("upar",upar==UP);
    double w=creal(m->omega); if(SEARCH) veq("kmax",K->kmax,KX[i]); else veq("kmax",K->kmax*K->kmax,P.k0*P.k0+P.ampk*P.ampk*w*w/(P.vmin*P.vmin));
    int want= CVG; double ke=P.keps; if(CVG==K_INTEG_CONVERG_AUTO&&(SAME||(SEARCH&&KX[i]>=KREF[i]))){ want=K_INTEG_CONVERG_DCM; ke=0; } vtrue("convergence",(int)K->cvgmet==want); vtrue("keps",K->keps==ke);
    vtrue("settings",K->kcut==P.kcut&&K->applyFIM==P.applyFIM&&K->filondk==P.filondk&&K->applySAFIM==P.applySAFIM&&K->sa_tol==P.sa_tol&&K->vmin==P.vmin&&K->k0==P.k0&&K->ampk==P.ampk);
    DKU[i]=K->dk; vtrue("dk_max",K->dk<=P.dk); vtrue("dk_fine",K->kmax>=498.999*K->dk); if(K->kmax>=499*P.dk) vtrue("dk_kept",K->dk==P.dk);
    K_INTEG *I3=grt_init_K_INTEG(upar,nr); char b[32];
    for(int t=0;t<(upar?3:1);t++) for(int ir=0;ir<2;ir++) for(int im=0;im<6;im++) for(int v=0;v<4;v++){ if(OMm[im]==0&&v!=0&&v!=2) continue; snprintf(b,32,"s%d_%d_%d_%d_%d",i,t,ir,im,v); double x=vsym(b,-9,9); snprintf(b,32,"t%d_%d_%d_%d_%d",i,t,ir,im,v); S[i][t][ir][im][v]=x+I*vsym(b,-9,9); (t==0?I3->sumJ:t==1?I3->sumJz:I3->sumJr)[ir][im][v]=S[i][t][ir][im][v]; }
    return I3;
}
static void run(int lo, int hi, bool keep)      /* frequencies lo..hi, all if keep */
{
    double f0= SEARCH&&lim!=1? vsym("df",0.3,0.6) : 0.5, fr[NF]; WIm=vsym("wI",0.005,0.02); for(int i=0;i<NF;i++) fr[i]= i*f0; double ro=vsym("rho",1,5); SAME=vint("same",0,1);
    FILE *f=fopen("m","w"); fprintf(f,"9 6 3.5 %s 1000 500\n0 8 4 3.3 900 450\n",vstr(ro)); fclose(f); M=grt_read_mod1d_from_file("m",4,SAME?4:1,true);
    memset(&P,0,sizeof(P)); P.k0=3; P.ampk=2; P.vmin=0.5; P.keps= CVG==K_INTEG_CONVERG_AUTO? 0.25:0; P.dk=DK0; P.kcut=0.7; P.use_kmax_ref=!SEARCH; P.cvgmet=CVG; K_INTEG_PROCESS K=P; MODEL1D m0=*M;
    memset(&Gs,0,sizeof(Gs)); Gs.nf=NF; Gs.freqs=fr; Gs.nf1=lo; Gs.nf2=hi; Gs.nr=2; Gs.rs=R; Gs.wI=WIm; Gs.keepAllFreq=keep; Gs.calc_upar=UP; grt_grnspec_allocate_u(&Gs);
    T_integ_grn_spec(M,&K,&Gs,false);
    vtrue("shared_settings",memcmp(&K,&P,sizeof(K))==0); vtrue("shared_model",M->n==m0.n&&M->isrc==m0.isrc&&M->ircv==m0.ircv&&M->depsrc==m0.depsrc); veq("reference",creal(M->omgref),6.283185307179586476925286766559*fr[hi]);
    for(int i=0;i<NF;i++){ bool on= i>=lo&&i<=hi&&(keep||i>0); vtrue("once",CALLS[i]==(on?1:0)&&(!SEARCH||SEARCHED[i]==CALLS[i]));
        cplx_t om=6.283185307179586476925286766559*fr[i]-I*WIm, c= on? -DKU[i]/(4*PI*ro*om*om) : 0;
        for(int t=0;t<(UP?3:1);t++)for(int ir=0;ir<2;ir++){ cplxChnlGrid e={{0}}; if(on) grt_merge_Pk(S[i][t][ir],e); pcplxChnlGrid *u= t==0?Gs.u:t==1?Gs.uiz:Gs.uir; for(int im=0;im<6;im++)for(int q=0;q<3;q++){ if(OMm[im]==0&&q==2) e[im][q]=0; VCEQ("spectrum",u[ir][im][q][i],c*e[im][q]); } } }
    vreach("end");
}
void h_auto(void){ SEARCH=true; CVG=K_INTEG_CONVERG_AUTO; lim=vint("lim",0,1); run(1,3,false); }
void h_auto_dk(void){ SEARCH=true; CVG=K_INTEG_CONVERG_AUTO; lim=2; run(1,2,false); }
void h_upar(void){ SEARCH=true; CVG=K_INTEG_CONVERG_AUTO; lim=0; UP=true; run(2,3,false); }
void h_dcm(void){ SEARCH=true; CVG=vint("method",1,3); lim=1; run(1,2,false); }
void h_ref_coarse(void){ DK0=3; CVG=K_INTEG_CONVERG_AUTO; SEARCH=false; run(1,2,false); }
void h_ref(void){ SEARCH=false; CVG=vint("method",0,3); run(1,2,false); }
void h_all(void){ SEARCH=true; CVG=K_INTEG_CONVERG_AUTO; lim=0; run(0,2,true); }
void h_low(void){ SEARCH=true; CVG=K_INTEG_CONVERG_AUTO; lim=0; run(0,2,false); }
