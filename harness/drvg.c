/* greenfn end to end: options and model -> frequencies, damping, wavenumber step, time window -> traces on disk.
 * The spectra themselves are arbitrary (stand-in for the driver decided in drvd.c). */
#include "verif.h"
#include "grt.h"
#include "grt/integral/integ_process.h"
#include "grt/dynamic/grn.h"
#include "grt/dynamic/grnspec.h"
#include "grt/common/travt.h"
static void my_spec(MODEL1D *m, K_INTEG_PROCESS *K, GRNSPEC *g, const bool print);
static real_t my_travt(const real_t *h, const real_t *v, const size_t n, const size_t a, const size_t b, const real_t d);
#define grt_integ_grn_spec my_spec
#define grt_compute_travt1d my_travt
#define greenfn_main T_greenfn_main
#include "dynamic/grt_greenfn.c"
#define PI2_ 6.283185307179586476925286766559
enum { NRr=2 };
static int nS=1; static double SA[2], ZA[2];
static int nr=1, nt=4, ups=1, CALLS; static double R[NRr], DT, ZETA=0.8, ZS=4, ZR=1, T0, V0, F1=-1, F2=-1, LEN, K0, AMPK=2, KE, VREF; static bool UP, KEEP, SKIP, REFP, REF, SIL=true; static int CVG; static double FIL, SAF, CUT; static char TOPB='f', BOTB='H';
static double VP[2]={6,8}, VS[2]={3.5,4.5}, RHO[2]={2.5,3.3}; static int SRCL=0, RCVL=0;
static char *RS[NRr]; static double TP[NRr][2];
static cplx_t U[3][NRr][6][3][5]; static int OMm[6]={0,0,1,0,1,2}; static int LO, HI; static double WIm, B0[NRr];
static real_t my_travt(const real_t *h, const real_t *v, const size_t n, const size_t a, const size_t b, const real_t d)
{
    int s= v[a]==VS[SRCL], i= nr>1&&d==R[1]; vtrue("travt_args",n==4&&(nS>1||v[a]==VP[SRCL]||v[a]==VS[SRCL])&&d==R[i]&&a!=b&&h[0]+h[1]+h[2]>0); char c[8]; snprintf(c,8,"tp%d%d",i,s); double lo= i?30:20; return TP[i][s]= vsym(c,s?lo+50:lo,s?lo+59:lo+9);
}
static double begin(int i){ double dz=ZR-ZS; return REFP? T0+TP[i][0] : V0>0? T0+sqrt(R[i]*R[i]+dz*dz)/V0 : T0; }
static void my_spec(MODEL1D *m, K_INTEG_PROCESS *K, GRNSPEC *g, const bool print)
{
    if(nS>1){ ZS=SA[CALLS/2]; ZR=ZA[CALLS%2]; } CALLS++; double win=nt*DT, df=1/win; int nf=nt/2+1; vtrue("print",print==!SIL); vtrue("model",m->depsrc==ZS&&m->deprcv==ZR&&m->n==4); vtrue("bounds",m->topbound==(TOPB=='f'?GRT_BOUND_FREE:TOPB=='r'?GRT_BOUND_RIGID:GRT_BOUND_HALFSPACE)&&m->botbound==(BOTB=='F'?GRT_BOUND_FREE:BOTB=='R'?GRT_BOUND_RIGID:GRT_BOUND_HALFSPACE));
    vtrue("nf",(int)g->nf==nf); if((int)g->nf!=nf) return; for(int i=0;i<nf;i++) veq("freq",g->freqs[i],i*df); WIm=ZETA*3.14159265358979323846/win; veq("damping",g->wI,WIm);
    LO=g->nf1; HI=g->nf2; vtrue("band",LO>=0&&LO<=HI&&HI<nf); if(F1>0) vtrue("low_cut",(LO*df>=F1||(LO==nf-1&&HI==LO))&&(LO-1)*df<F1); else vtrue("low",LO==0); if(F2>0) vtrue("high_cut",(HI*df<=F2||HI==LO)&&(HI==nf-1||(HI+1)*df>F2)); else vtrue("high",HI==nf-1);
    vtrue("flags",g->keepAllFreq==KEEP&&g->calc_upar==UP&&(int)g->nr==nr); for(int i=0;i<nr;i++) vtrue("distance",g->rs[i]==R[i]);
    double dz= ZR>ZS?ZR-ZS:ZS-ZR, rmax=R[nr-1], vm= VREF>0?VREF: VS[0]>0?VS[0]:VS[1], vx=VP[1];
    veq("k0",K->k0,K0*3.14159265358979323846/(dz>0.1?dz:0.1)); veq("ampk",K->ampk,AMPK); veq("vmin",K->vmin,vm); vtrue("use_ref",K->use_kmax_ref==REF); vtrue("method",(int)K->cvgmet==CVG); veq("keps",K->keps,CVG==K_INTEG_CONVERG_AUTO?KE:0);
    vtrue("filon",K->applyFIM==(FIL>0)&&K->applySAFIM==(SAF>0)); if(FIL>0) veq("filondk",K->filondk*FIL*rmax,PI2_); if(SAF>0) veq("tol",K->sa_tol,SAF); if(FIL>0||SAF>0) veq("kcut",K->kcut*rmax,CUT);
    /* spurious sources repeat every D: none may be heard by any receiver before its window closes */
    double D=PI2_/K->dk; if(LEN>0) veq("step",D,LEN*rmax); else { vtrue("wide",D>=14.999999*rmax); for(int i=0;i<nr;i++){ double te=begin(i)+win, x=vx*te, y=D-R[i]; vtrue("no_alias",y*y+dz*dz>=0.9999999*x*x||te<0); } }
    char b[32]; for(int t=0;t<(UP?3:1);t++)for(int ir=0;ir<nr;ir++)for(int im=0;im<6;im++)for(int c=0;c<3;c++)for(int i=LO;i<=HI;i++){ if(OMm[im]==0&&c==2) continue; snprintf(b,32,"u%d_%d_%d_%d_%d",t,ir,im,c,i); double x=vsym(b,-9,9); snprintf(b,32,"w%d_%d_%d_%d_%d",t,ir,im,c,i); U[t][ir][im][c][i]=x+I*vsym(b,-9,9); (t==0?g->u:t==1?g->uiz:g->uir)[ir][im][c][i]=U[t][ir][im][c][i]; }
}
static char *cat(const char *a, const char *b){ char *r=malloc(strlen(a)+strlen(b)+1); strcpy(r,a); strcat(r,b); return r; }
static char *AV[24]; static int AC; static void arg(char *s){ AV[AC++]=s; AV[AC]=NULL; }
static char *num(const char *o, double v){ return cat(o,vstr(v)); }
static void model(void){ FILE *f=fopen("m","w"); fprintf(f,"9 %g %g %g 1000 500\n0 %g %g %g 900 450\n",VP[0],VS[0],RHO[0],VP[1],VS[1],RHO[1]); fclose(f); }
static void run(const char *G, bool write)
{
    model(); AC=0; arg("greenfn"); arg("-Mm"); arg("-Oo"); if(SIL) arg("-s"); char z[16]; snprintf(z,16,"%d/",nt); char *n=num(cat("-N",z),DT); if(ZETA!=0.8) n=num(cat(n,"+w"),ZETA); if(ups>1){ snprintf(z,16,"+n%d",ups); n=cat(n,z); } if(KEEP) n=cat(n,"+a"); if(SKIP) n=cat(n,"+f"); arg(n);
    if(nS>1){ char b[40]; snprintf(b,40,"-Ds%g,%g",SA[0],SA[1]); arg(strdup(b)); snprintf(b,40,"-Dr%g,%g",ZA[0],ZA[1]); arg(strdup(b)); } else arg(num(cat(num("-D",ZS),"/"),ZR)); { FILE *f=fopen("rlist","w"); for(int i=0;i<nr;i++) { RS[i]=strdup(vstr(R[i])); fprintf(f,"%s\n",RS[i]); }; fclose(f); } arg("-Rrlist");
    if(F1>0||F2>0) arg(num(cat(num("-H",F1),"/"),F2)); if(T0!=0||V0>0||REFP) arg(REFP? num("-Ep",T0) : num(cat(num("-E",T0),"/"),V0)); if(LEN>0||FIL>0||SAF>0){ char *l= LEN>0? num("-L",LEN):strdup("-L"); if(FIL>0) l=num(cat(l,"+l"),FIL); if(SAF>0) l=num(cat(l,"+a"),SAF); if(CUT>0) l=num(cat(l,"+o"),CUT); arg(l); }
    { char *k=strdup("-K"); k=num(cat(k,"+k"),K0); k=num(cat(k,"+s"),AMPK); if(KE!=0) k=num(cat(k,"+e"),KE); if(VREF>0) k=num(cat(k,"+v"),VREF); if(REF) k=cat(k,"+f"); arg(k); }
    if(CVG) arg(CVG==K_INTEG_CONVERG_DCM?"-Cd":CVG==K_INTEG_CONVERG_PTAM?"-Cp":"-Cn"); if(UP) arg("-e"); if(*G) arg(cat("-G",G)); if(TOPB!='f'||BOTB!='H'){ char b[5]={'-','B',TOPB,BOTB,0}; arg(strdup(b)); }
    optind=1; T_greenfn_main(AC,AV); vtrue("once",CALLS==(nS>1?4:1)); if(!write){ vreach("end"); return; }
    int NTo=nt*ups; double win=nt*DT, df=1/win, dto=DT/ups;
    for(int ir=0;ir<nr;ir++){ double b=begin(ir); double c1=cos(PI2_*df*b), s1=sin(PI2_*df*b), ew=SKIP?1:exp(WIm*b), ed=SKIP?1:exp(WIm*dto);
      for(int im=0;im<6;im++)for(int c=0;c<3;c++)for(int t=0;t<(UP?3:1);t++){ bool want= !(OMm[im]==0&&c==2)&&(!*G||strchr(G,im==0?'e':im==1?'v':im==2?'h':'s')); if(VS[SRCL]==0&&im>0) want=false;
        static const char *SN[6]={"EX","VF","HF","DD","DS","SS"}; char p[128]; snprintf(p,128,"o/m_%g_%g_%s/%s%s%c.sac",ZS,ZR,RS[ir],t==0?"":t==1?"z":"r",SN[im],"ZRT"[c]); vtrue("file",(access(p,F_OK)==0)==want); if(!want) continue;
        SACTRACE *s=grt_read_SACTRACE(p,false); vtrue("npts",s->hd.npts==NTo); veq("delta",s->hd.delta,dto); veq("b",s->hd.b,b); veq("o",s->hd.o,0); veq("dist",s->hd.dist,R[ir]); veq("evdp",s->hd.evdp,ZS); veq("stel",s->hd.stel,-1000*ZR); veq("wI",s->hd.user0,WIm); veq("P",s->hd.t0,TP[ir][0]); veq("S",s->hd.t1,TP[ir][1]);
        veq("rva",s->hd.user1,VP[RCVL]); veq("rvb",s->hd.user2,VS[RCVL]); veq("rro",s->hd.user3,RHO[RCVL]); veq("rqa",s->hd.user4,RCVL?1/900.:1/1000.); veq("rqb",s->hd.user5,RCVL?1/450.:1/500.); veq("sva",s->hd.user6,VP[SRCL]); veq("svb",s->hd.user7,VS[SRCL]); veq("sro",s->hd.user8,RHO[SRCL]);
        int sg= (c==0?-1:1)*(t==1?-1:1); double grow=ew; for(int i=0;i<NTo&&i<8;i++){ double v=0, pc=1, ps=0; for(int k=0;k<=HI;k++){ if(k>0){ double x=pc*c1-ps*s1; ps=pc*s1+ps*c1; pc=x; } if(k<LO) continue;
              static const double C8[8]={1,0.70710678118654752440,0,-0.70710678118654752440,-1,-0.70710678118654752440,0,0.70710678118654752440}; double cc,ss; if(NTo==3){ static const double C3[3]={1,-0.5,-0.5}, S3[3]={0,0.86602540378443864676,-0.86602540378443864676}; cc=C3[(k*i)%3]; ss=S3[(k*i)%3]; } else { cc=C8[(k*i*8/NTo)%8]; ss=C8[(k*i*8/NTo+6)%8]; }
              double a=creal(U[t][ir][im][c][k]), d=cimag(U[t][ir][im][c][k]), re=a*pc-d*ps, mi=a*ps+d*pc; v+=(k==0||2*k==NTo?1:2)*(2*k==NTo? re*cc : k==0? re: re*cc-mi*ss); }
            veq("sample",s->data[i],sg*df*grow*v); grow*=ed; } grt_free_SACTRACE(s); } }
    vreach("end");
}
static void base(void){ DT=vsym("dt",0.1,2); K0=vsym("k0",1,60); R[0]=vsym("r0",0.5,10); R[1]=vsym("r1",11,40); }
void h_plain(void){ base(); run("",true); }
void h_delay(void){ base(); T0=vsym("t0",-5,-1); V0=vsym("v0",3,7); ZETA=vsym("zeta",0.9,1.5); LEN=vsym("len",10,30); run("vs",true); }
void h_alias_t(void){ DT=3; K0=5; R[0]=1; R[1]=4; nr=2; T0=vsym("t0",-9,60); V0=5; run("e",false); }
void h_alias_v(void){ DT=8; K0=5; R[0]=4; T0=0; V0=vsym("v0",0.1,9); run("e",false); }
void h_alias_d(void){ DT=vsym("dt",0.1,20); K0=5; R[0]=4; run("e",false); }
void h_alias_r(void){ DT=8; K0=5; R[0]=vsym("r0",0.1,300); run("e",false); }
void h_alias_p(void){ DT=8; K0=5; R[0]=4; REFP=true; T0=vsym("t0",-9,-1); run("e",false); }
void h_alias_0(void){ DT=vsym("dt",0.1,20); K0=5; R[0]=0; run("e",false); }
void h_two(void){ DT=1; K0=vsym("k0",1,60); nr=2; R[0]=vsym("r0",0.5,10); R[1]=vsym("r1",11,40); UP=true; nt=3; LEN=vsym("len",10,30); TOPB='r'; BOTB='F'; run("",true); }
void h_ref(void){ base(); REFP=true; T0=vsym("t0",-9,-1); LEN=20; ZS=1; ZR=12; SRCL=0; RCVL=1; UP=true; run("eh",true); }
void h_up(void){ base(); DT=2; ups=2; LEN=20; KEEP=true; SKIP=true; T0=vsym("t0",1,5); REF=true; CVG=K_INTEG_CONVERG_DCM; SIL=false; run("v",true); }
void h_band(void){ base(); DT=1; LEN=20; F1=vsym("f1",0.26,0.49); F2=vsym("f2",0.5,0.9); CVG=K_INTEG_CONVERG_PTAM; run("h",true); }
void h_band8(void){ DT=1; K0=2; R[0]=3; LEN=20; nt=8; F1=vsym("f1",0.01,0.6); F2=vsym("f2",0.01,0.6); vassume(F1<F2); ups=1; run("e",false); }
void h_up_band(void){ base(); DT=1; LEN=20; F2=vsym("f2",0.26,0.49); ups=2; run("s",true); }
void h_filon(void){ base(); DT=1; LEN=20; FIL=vsym("fl",1,9); CUT=vsym("cut",1,50); KE=vsym("ke",0.001,0.1); run("e",false); }
void h_safim(void){ base(); DT=1; LEN=20; SAF=vsym("sa",0.001,0.1); CUT=vsym("cut",1,50); VREF=vsym("vr",1,4); AMPK=vsym("ak",1,4); CVG=K_INTEG_CONVERG_REFUSE; run("e",false); }
void h_fluid(void){ base(); DT=1; LEN=20; VS[0]=0; run("",true); }
void h_multi(void){ base(); DT=1; LEN=20; nS=2; SA[0]=4; SA[1]=12; ZA[0]=1; ZA[1]=14; VS[0]=0; run("eh",false);
    for(int i=0;i<2;i++)for(int j=0;j<2;j++)for(int c=0;c<3;c++)for(int k=0;k<2;k++){ char p[99]; snprintf(p,99,"o/m_%g_%g_%s/%s%c.sac",SA[i],ZA[j],RS[0],k?"HF":"EX","ZRT"[c]); bool want= k? i==1 : c<2; vtrue("multi_file",(access(p,F_OK)==0)==want); } }
