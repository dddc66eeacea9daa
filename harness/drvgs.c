/* static greenfn end to end: options and model -> wavenumber integration set-up for every depth pair -> one library file.
 * The integrals themselves are arbitrary (stand-in for the driver decided in drvs.c). */
#include "verif.h"
#include "grt.h"
#include "grt/integral/integ_process.h"
#include "grt/static/static_grn.h"
#include "grt/static/stgrnlib.h"
static void my_grn(MODEL1D *m, size_t nr, real_t *rs, K_INTEG_PROCESS *K, bool upar, realChnlGrid *g, realChnlGrid *gz, realChnlGrid *gr, const char *st);
#define grt_integ_static_grn my_grn
#define static_greenfn_main T_sg_main
#include "static/grt_static_greenfn.c"
#define PI2_ 6.283185307179586476925286766559
static int ns=1,nz=1,nx=1,ny=1,CALLS; static double S[2]={4,6}, Z[2]={1,0}, X[4], Y[4], K0, LEN, FIL, SAF, CUT, KE; static bool UP, REF, GRID; static int CVG; static char TOPB='f', BOTB='H';
static double VP[2]={6,8}, VS[2]={3.5,4.5}, RHO[2]={2.5,3.3};
static int OMm[6]={0,0,1,0,1,2};
static double U[2][2][3][9][6][3];
static int lay(double z){ return z>=9; }
static void my_grn(MODEL1D *m, size_t nr, real_t *rs, K_INTEG_PROCESS *K, bool upar, realChnlGrid *g, realChnlGrid *gz, realChnlGrid *gr, const char *st)
{
    int is=CALLS/nz, ir=CALLS%nz; CALLS++; vtrue("model",m->depsrc==S[is]&&m->deprcv==Z[ir]&&m->n==4); vtrue("bounds",m->topbound==(TOPB=='f'?GRT_BOUND_FREE:TOPB=='r'?GRT_BOUND_RIGID:GRT_BOUND_HALFSPACE)&&m->botbound==(BOTB=='F'?GRT_BOUND_FREE:BOTB=='R'?GRT_BOUND_RIGID:GRT_BOUND_HALFSPACE));
    vtrue("nr",(int)nr==nx*ny&&upar==UP&&st==NULL); double rmax=0; for(int i=0;i<nx;i++)for(int j=0;j<ny;j++){ double q=rs[i*ny+j]; veq("distance",q*q,X[i]*X[i]+Y[j]*Y[j]); vtrue("distance_sign",q>=0); if(q>rmax) rmax=q; }
    double dz=Z[ir]>S[is]?Z[ir]-S[is]:S[is]-Z[ir]; veq("k0",K->k0,K0*3.14159265358979323846/(dz>0.1?dz:0.1)); veq("keps",K->keps,CVG==K_INTEG_CONVERG_AUTO?KE:0); vtrue("method",(int)K->cvgmet==CVG&&K->use_kmax_ref==REF); vtrue("filon",K->applyFIM==(FIL>0)&&K->applySAFIM==(SAF>0));
    if(rmax>0) veq("step",K->dk*(LEN>0?LEN:15)*rmax,PI2_); else vtrue("step",K->dk>0); if(FIL>0) veq("filondk",K->filondk*FIL*rmax,PI2_); if(SAF>0) veq("tol",K->sa_tol,SAF); if(FIL>0||SAF>0) veq("kcut",K->kcut*rmax,CUT);
    char b[40]; for(int p=0;p<nx*ny;p++)for(int t=0;t<(UP?3:1);t++)for(int im=0;im<6;im++)for(int c=0;c<3;c++){ if(OMm[im]==0&&c==2) continue; snprintf(b,40,"u%d_%d_%d_%d_%d_%d",is,ir,t,p,im,c); (t==0?g:t==1?gz:gr)[p][im][c]=U[is][ir][t][p][im][c]=vsym(b,-9,9); }
    K->cvgmet=K_INTEG_CONVERG_DCM; K->dk*=0.5; K->k0=7; K->keps=3;   /* the integration may adapt its own copy */
}
static char *cat(const char *a, const char *b){ char *r=malloc(strlen(a)+strlen(b)+1); strcpy(r,a); strcat(r,b); return r; }
static char *AV[24]; static int AC; static void arg(char *s){ AV[AC++]=s; AV[AC]=NULL; }
static char *num(const char *o, double v){ return cat(o,vstr(v)); }
static void list(const char *fn, const double *x, int n){ FILE *f=fopen(fn,"w"); for(int i=0;i<n;i++) fprintf(f,"%s\n",strdup(vstr(x[i]))); fclose(f); }
static double XA=0,XB=0,XD=1,YA,YB,YD;
static void run(void)
{
    FILE *f=fopen("m","w"); fprintf(f,"9 %g %g %g 1000 500\n0 %g %g %g 900 450\n",VP[0],VS[0],RHO[0],VP[1],VS[1],RHO[1]); fclose(f);
    AC=0; arg("sg"); arg("-Mm"); arg("-Oo.nc"); if(ns>1||nz>1){ list("ds",S,ns); list("dr",Z,nz); arg("-Dsds"); arg("-Drdr"); } else arg(num(cat(num("-D",S[0]),"/"),Z[0]));
    if(GRID){ arg(num(cat(num(cat(num("-X",XA),"/"),XB),"/"),XD)); arg(num(cat(num(cat(num("-Y",YA),"/"),YB),"/"),YD)); nx=ny=0; for(int i=0;i<4&&XA+i*XD<=XB;i++) X[nx++]=XA+i*XD; for(int i=0;i<4&&YA+i*YD<=YB;i++) Y[ny++]=YA+i*YD; } else { list("rl",Y,ny); arg("-Rrl"); }
    if(LEN>0||FIL>0||SAF>0){ char *l= LEN>0? num("-L",LEN):strdup("-L"); if(FIL>0) l=num(cat(l,"+l"),FIL); if(SAF>0) l=num(cat(l,"+a"),SAF); if(CUT>0) l=num(cat(l,"+o"),CUT); arg(l); }
    { char *k=num("-K+k",K0); if(KE!=0) k=num(cat(k,"+e"),KE); if(REF) k=cat(k,"+f"); arg(k); } if(CVG) arg(CVG==K_INTEG_CONVERG_DCM?"-Cd":CVG==K_INTEG_CONVERG_PTAM?"-Cp":"-Cn"); if(UP) arg("-e"); if(TOPB!='f'||BOTB!='H'){ char b[5]={'-','B',TOPB,BOTB,0}; arg(strdup(b)); }
    optind=1; T_sg_main(AC,AV); vtrue("all_pairs",CALLS==ns*nz); STGRNLIB *l=grt_stgrnlib_load_nc("o.nc"); vtrue("dims",(int)l->ndepsrc==ns&&(int)l->ndeprcv==nz&&(int)l->nnorth==nx&&(int)l->neast==ny&&l->calc_upar==UP&&l->nlayer==2);
    for(int i=0;i<nx;i++) veq("north",l->norths[i],X[i]); for(int j=0;j<ny;j++) veq("east",l->easts[j],Y[j]);
    for(int k=0;k<2;k++){ veq("m_h",l->modarr[k][0],k?0:9); veq("m_vp",l->modarr[k][1],VP[k]); veq("m_vs",l->modarr[k][2],VS[k]); veq("m_rho",l->modarr[k][3],RHO[k]); }
    for(int s=0;s<ns;s++){ int y=lay(S[s]); veq("depsrc",l->depsrcs[s],S[s]); veq("sva",l->src_va[s],VP[y]); veq("svb",l->src_vb[s],VS[y]); veq("sro",l->src_rho[s],RHO[y]); }
    for(int z=0;z<nz;z++){ int y=lay(Z[z]); veq("deprcv",l->deprcvs[z],Z[z]); veq("rva",l->rcv_va[z],VP[y]); veq("rvb",l->rcv_vb[z],VS[y]); veq("rro",l->rcv_rho[z],RHO[y]); }
    for(int s=0;s<ns;s++)for(int z=0;z<nz;z++)for(int p=0;p<nx*ny;p++)for(int im=0;im<6;im++)for(int c=0;c<3;c++){ if(OMm[im]==0&&c==2) continue; int sg=c==0?-1:1; /* computed Z is positive downward, stored Z positive upward; z grows downward, stored derivative upward */
        veq("value",l->u[s][z][p][im][c],sg*U[s][z][0][p][im][c]); if(UP){ veq("dz",l->uiz[s][z][p][im][c],-sg*U[s][z][1][p][im][c]); veq("dr",l->uir[s][z][p][im][c],sg*U[s][z][2][p][im][c]); } }
    vreach("end");
}
static void base(void){ K0=vsym("k0",1,60); nx=1; X[0]=0; ny=3; Y[0]=vsym("r0",0.5,4); Y[1]=vsym("r1",5,9); Y[2]=vsym("r2",11,40); }
void h_list(void){ base(); UP=true; LEN=vsym("len",5,40); run(); }
void h_zero(void){ K0=5; nx=1; X[0]=0; ny=1; Y[0]=0; UP=true; run(); }
void h_depths(void){ base(); ny=2; ns=nz=2; S[0]=vsym("s0",2,4); S[1]=vsym("s1",10,20); Z[0]=vsym("z0",0,1); Z[1]=vsym("z1",9.5,9.9); UP=true; KE=vsym("ke",0.001,0.1); run(); }
void h_near(void){ base(); ny=1; ns=2; nz=2; S[0]=3; S[1]=5; Z[0]=2.95; Z[1]=5.05; CVG=K_INTEG_CONVERG_DCM; REF=true; run(); }
void h_grid(void){ K0=5; GRID=true; XA=vsym("xa",-1,1); XB=5; XD=3; YA=-2; YB=vsym("yb",1,3); YD=2.5; UP=true; TOPB='r'; BOTB='R'; run(); }
void h_grid_dec(void){ K0=5; GRID=true; XA=0; XB=1; XD=1; YA=0.5; YB=2; YD=vsym("yd",0.6,1.6); run(); }
void h_filon(void){ base(); FIL=vsym("fl",1,9); CUT=vsym("cut",1,50); KE=vsym("ke",0.001,0.1); CVG=K_INTEG_CONVERG_PTAM; TOPB='h'; BOTB='F'; run(); }
void h_safim(void){ base(); LEN=vsym("len",5,40); SAF=vsym("sa",0.001,0.1); CUT=vsym("cut",1,50); CVG=K_INTEG_CONVERG_REFUSE; run(); }
void h_bottom(void){ base(); S[0]=vsym("s0",9.1,20); Z[0]=vsym("z0",21,30); run(); }
