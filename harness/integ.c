/* Wavenumber integration: integrand, discrete sum, Filon rules, direct convergence, peak-trough averaging, upper limit.
 * The kernel is a call-back, so its values are arbitrary symbols. */
#include "verif.h"
#include "grt.h"
#include "grt/integral/integ_process.h"
#include "grt/integral/kmax.h"
#include "grt/integral/dwm.h"
#include "grt/integral/quadratic.h"
#include "grt/common/model.h"
static const int OM[6]={0,0,1,0,1,2};
static bool force(int im){ return im==1||im==2; }
static int NK; static double KK[200]; static cplx_t Q0[200][6][3], QZ0[200][6][3]; static bool CPLX=false;
static int calls; static double last; static int oneim=-1;
static cplx_t sy(const char *p, int i, int im, int c){ char b[24]; if(oneim>=0&&im!=oneim) return 0; snprintf(b,24,"%s%d_%d%d",p,i,im,c); double x=vsym(b,-9,9), y=0; if(CPLX){ snprintf(b,24,"%si%d_%d%d",p,i,im,c); y=vsym(b,-9,9); } return x+I*y; }
/* kernel value at a wavenumber: the first request defines it, the same wavenumber always gives the same value */
static int find(double k){ for(int i=0;i<NK;i++) if(fabs(KK[i]-k)<1e-9) return i; return -1; }
static int (*fill)(double k, int i);     /* defines Q0[i], QZ0[i] */
static int fill_any(double k, int i){ (void)k; for(int im=0;im<6;im++)for(int c=0;c<3;c++){ if(OM[im]==0&&c==2){ Q0[i][im][c]=QZ0[i][im][c]=0; continue; } Q0[i][im][c]=sy("q",i,im,c); QZ0[i][im][c]=sy("z",i,im,c); } return 0; }
static void ker(MODEL1D_STATE *m, real_t k, cplxChnlGrid QWV, bool up, cplxChnlGrid QWVz)
{
    (void)m; int i=find(k); if(i<0){ i=NK++; KK[i]=k; fill(k,i); } calls++; last=k;
    for(int im=0;im<6;im++)for(int c=0;c<3;c++){ QWV[im][c]=Q0[i][im][c]; if(up) QWVz[im][c]=QZ0[i][im][c]; }
}
/* ---- integrand ---- */
typedef cplx_t C3[6][3];
static void hankel(double k, double r, cplx_t Q[6][3], C3 out)       /* (Z,R,T) integrand, k included */
{
    double x=k*r, J0=j0(x), J1=j1(x), J2=2*J1/x-J0, J[3]={J0,J1,J2}, D[3]={-J1,J0-J1/x,J1-2*J2/x};
    for(int im=0;im<6;im++){ int m=OM[im]; cplx_t q=Q[im][0], w=Q[im][1], v=Q[im][2]; out[im][0]=k*w*J[m]; out[im][1]=k*(q*D[m]-(m? m*v*J[m]/x:0)); out[im][2]= m? k*(m*q*J[m]/x-v*D[m]) : 0; }
}
/* the limits at zero distance */
static void hankel0(double k, cplx_t Q[6][3], bool dr, C3 out)
{
    for(int im=0;im<6;im++){ int m=OM[im]; cplx_t q=Q[im][0], w=Q[im][1], v=Q[im][2], z=0,a=0,t=0;
        if(!dr){ if(m==0) z=k*w; if(m==1) a=t=k*(q-v)/2; } else { double k2=k*k; if(m==0) a=-k2*q/2; if(m==1) z=k2*w/2; if(m==2) a=t=k2*(q-v)/4; }
        out[im][0]=z; out[im][1]=a; out[im][2]=t; }
}
static void eqc(const char *l, cplx_t a, cplx_t b){ char s[40]; veq(l,creal(a),creal(b)); snprintf(s,40,"%s_im",l); veq(s,cimag(a),cimag(b)); }
void h_integrand(void)
{
    CPLX=true; double k=vsym("k",0.01,20), r=vsym("r",0.01,50); bool one=vint("at0",0,1); fill_any(k,0); KK[0]=k; NK=1; cplxIntegGrid S={{0}}, D={{0}}; cplxChnlGrid t={{0}}, d={{0}}; C3 e;
    grt_int_Pk(k, one?0:r, Q0[0], false, S); grt_merge_Pk(S,t); grt_int_Pk(k, one?0:r, Q0[0], true, D); grt_merge_Pk(D,d);
    if(one) hankel0(k,Q0[0],false,e); else hankel(k,r,Q0[0],e);
    for(int im=0;im<6;im++)for(int c=0;c<3;c++) if(!(OM[im]==0&&c==2)) eqc("value",t[im][c],e[im][c]);
    if(one) hankel0(k,Q0[0],true,e);
    for(int im=0;im<6;im++)for(int c=0;c<3;c++) if(!(OM[im]==0&&c==2)){ if(one) eqc("deriv0",d[im][c],e[im][c]); else { double a=creal(e[im][c]), b=cimag(e[im][c]); eqc("deriv",d[im][c],vdiff(a,"r")+I*vdiff(b,"r")); } }
    vreach("end");
}
static MODEL1D_STATE MS; static MODEL1D MM;
static K_INTEG_PROCESS P;
static void setup(double zs, double zr){ memset(&MS,0,sizeof(MS)); memset(&MM,0,sizeof(MM)); MS.mod1d=&MM; MM.depsrc=zs; MM.deprcv=zr; MS.omega=2.0; memset(&P,0,sizeof(P)); P.vmin=3; P.ampk=1.15; P.keps=-1; fill=fill_any; NK=0; P.cvgmet=K_INTEG_CONVERG_REFUSE; }
static void compare(const char *l, cplxIntegGrid S, cplx_t e[6][3]){ cplxChnlGrid t={{0}}; grt_merge_Pk(S,t); char b[32]; for(int im=0;im<6;im++)for(int c=0;c<3;c++) if(!(OM[im]==0&&c==2)&&!(oneim>=0&&im!=oneim)){ snprintf(b,32,"%s",l); eqc(b,t[im][c],e[im][c]); } }
static void add(C3 a, const C3 b, double s){ for(int im=0;im<6;im++)for(int c=0;c<3;c++) a[im][c]+=s*b[im][c]; }
/* ---- discrete sum: every node exactly once, every distance, derivatives ---- */
static void dwm(bool up, bool same)
{
    setup(5, same?5:1); CPLX=true; oneim= vint("source",0,5); P.dk=0.1; P.kmax=vsym("kmax",0.05,0.39); vassume(fabs(P.kmax-0.1)>1e-6&&fabs(P.kmax-0.2)>1e-6&&fabs(P.kmax-0.3)>1e-6); double rs[2]={vsym("r",0.1,30), 0}; if(vint("order",0,1)){ rs[1]=rs[0]; rs[0]=0; }
    K_INTEG *K=grt_wavenumber_integral(&MS,2,rs,&P,up,ker);
    int n= P.kmax<0.1?1: P.kmax<0.2?2: P.kmax<0.3?3:4; vtrue("nodes",calls==n&&NK==n);
    for(int ir=0;ir<2;ir++){ C3 s={{0}},z={{0}},d={{0}},e; for(int i=0;i<n;i++){ double k=0.1*(i+1); veq("node",KK[i],k);
            if(rs[ir]==0&&same) continue;
            if(rs[ir]==0){ hankel0(k,Q0[i],false,e); add(s,e,1); hankel0(k,QZ0[i],false,e); add(z,e,1); hankel0(k,Q0[i],true,e); add(d,e,1); }
            else { hankel(k,rs[ir],Q0[i],e); add(s,e,1); hankel(k,rs[ir],QZ0[i],e); add(z,e,1); } }
        compare(rs[ir]==0?"sum0":"sum",K->sumJ[ir],s); if(up){ compare("sumz",K->sumJz[ir],z); if(rs[ir]==0) compare("sumr0",K->sumJr[ir],d); else { C3 g; for(int im=0;im<6;im++)for(int c=0;c<3;c++){ double a=creal(s[im][c]),b=cimag(s[im][c]); g[im][c]=vdiff(a,"r")+I*vdiff(b,"r"); } compare("sumr",K->sumJr[ir],g); } } }
    vreach("end");
}
void h_dwm(void){ dwm(false,false); } void h_dwm_e(void){ dwm(true,false); } void h_dwm_same(void){ dwm(true,true); }
/* early stop: a distance is complete only after a node where every component adds at most keps of its sum */
static int KW; static int fill_big(double k, int i){ (void)k; for(int im=0;im<6;im++)for(int c=0;c<3;c++){ QZ0[i][im][c]=0; Q0[i][im][c]= (OM[im]==0&&c==2)?0: i==0? 1+0.1*im+0.3*c : 0.01+0.001*im; } if(i==1){ int w=KW, im= w==0?1:w==1?2:w==2?4:4, c= w==0?0:w==1?1:w==2?2:0; Q0[i][im][c]=vsym("late",-3,3); } return 0; }
static void keps(int w)
{
    KW=w;     setup(5,1); fill=fill_big; P.dk=0.1; P.kmax=0.25; P.keps=0.3; double rs[2]={vint("first",0,1)? 2:7, 5};
    K_INTEG *K=grt_wavenumber_integral(&MS,2,rs,&P,false,ker);
    int stop[2]; for(int ir=0;ir<2;ir++){ cplx_t acc[6][4]; memset(acc,0,sizeof(acc)); stop[ir]=3; for(int i=0;i<3;i++){ if(i>=NK) break; cplxIntegGrid S={{0}}; grt_int_Pk(KK[i],rs[ir],Q0[i],false,S); bool ok=true; for(int im=0;im<6;im++)for(int v=0;v<4;v++){ acc[im][v]+=S[im][v]; if(OM[im]==0&&v!=0&&v!=2) continue; double a=creal(S[im][v]), b=creal(acc[im][v]); vassume(b*b>1e-12); double q=a*a-0.09*b*b; vassume(q*q>1e-14); if(q>0) ok=false; } if(ok){ stop[ir]=i+1; break; } } }
    vtrue("calls",calls==(stop[0]>stop[1]?stop[0]:stop[1]));
    for(int ir=0;ir<2;ir++){ C3 s={{0}},e; for(int i=0;i<stop[ir];i++){ hankel(KK[i],rs[ir],Q0[i],e); add(s,e,1); } compare("sum",K->sumJ[ir],s); }
    vreach("end");
}
void h_keps0(void){ keps(0); } void h_keps1(void){ keps(1); } void h_keps2(void){ keps(2); } void h_keps3(void){ keps(3); }
/* ---- Filon part: exact for the stated interpolation and the far-field form of the Bessel functions ---- */
/* integral over [a,b] of (g0+g1 k+g2 k^2+g3 k^3) cos(k r - ph) */
static cplx_t osc(const cplx_t g[4], double a, double b, double r, double ph)
{
    cplx_t F[2]; for(int i=0;i<2;i++){ double k=i?b:a; cplx_t y=g[0]+k*(g[1]+k*(g[2]+k*g[3])), y1=g[1]+k*(2*g[2]+3*k*g[3]), y2=2*g[2]+6*k*g[3], y3=6*g[3]; double s=sin(k*r-ph), c=cos(k*r-ph); F[i]=y*s/r+y1*c/(r*r)-y2*s/(r*r*r)-y3*c/(r*r*r*r); }
    return F[1]-F[0];
}
/* far-field integrands: Z: w J_m; R: q J_{m-1} (m=0: -q J_1); T: -v J_{m-1} */
static void farform(int im, int c, int *comp, int *ord, double *sg){ int m=OM[im]; *comp= c==0?0: c; *sg=1; if(c==0){ *comp=1; *ord=m; } else if(c==1){ *comp=0; if(m==0){ *ord=1; *sg=-1; } else *ord=m-1; } else { *comp=2; *ord=m-1; *sg=-1; } }
static void fim(bool up, int nseg)
{
    setup(5,1); oneim=vint("source",0,5); P.dk=0.1; P.kcut=0.15; P.applyFIM=true; P.filondk=0.3; P.kmax= nseg==1? 0.5:0.8; double rs[1]={vsym("r",1,50)};
    vtrue("base",cos(0.05*rs[0])<2); /* (all angles are multiples of this one) */ K_INTEG *K=grt_wavenumber_integral(&MS,1,rs,&P,up,ker); double r=rs[0], cf=sqrt(2/(M_PI*r))/P.dk; int nd=2, nf= nseg==1? 2:3; /* nodes 0.1 0.2 (cells up to 0.25) | 0.25 0.55 (0.85) */
    vtrue("nodes",NK==nd+nf); for(int i=0;i<nf;i++) veq("node",KK[nd+i],0.25+0.3*i);
    C3 s[3]={{{0}}},e; for(int i=0;i<nd;i++){ hankel(KK[i],r,Q0[i],e); add(s[0],e,1); hankel(KK[i],r,QZ0[i],e); add(s[1],e,1); }
    if(up) for(int im=0;im<6;im++)for(int c=0;c<3;c++){ double a=creal(s[0][im][c]); s[2][im][c]=vdiff(a,"r"); }
    for(int im=0;im<6;im++)for(int c=0;c<3;c++){ if(OM[im]==0&&c==2) continue; int q,o; double sg; farform(im,c,&q,&o,&sg); int col= q==0?1: q==1?0:2; col= c==0?1: c==1?0:2; (void)q;
        double ph=(2*o+1)*M_PI/4; for(int t=0;t<3;t++) for(int j=0;j+1<nf;j++){ double a=KK[nd+j], b=KK[nd+j+1]; cplx_t fa=(t==1?QZ0:Q0)[nd+j][im][col]*sqrt(a)*(t==2?a:1), fb=(t==1?QZ0:Q0)[nd+j+1][im][col]*sqrt(b)*(t==2?b:1), g[4]={0,0,0,0}; g[1]=(fb-fa)/(b-a); g[0]=fa-g[1]*a;
            s[t][im][c]+=sg*cf*osc(g,a,b,r, t==2? ph-M_PI/2:ph); } }
    compare("sum",K->sumJ[0],s[0]); if(up){ compare("sumz",K->sumJz[0],s[1]); compare("sumr",K->sumJr[0],s[2]); } vreach("end");
}
void h_fim(void){ fim(false,1); } void h_fim_e(void){ fim(true,2); }
/* adaptive rule: sqrt(k) F(k) quadratic on each half (quarter) of the interval: exact whatever the subdivision needed to see it */
static double kb_; static double qc(int im, int c, int z, int p){ return 0.5+0.3*im-0.2*c*p+0.1*z*(p+1)+0.05*im*c*p; }
static cplx_t gq(int im, int c, int z, double k){ if(OM[im]==0&&c==2) return 0; double v=qc(im,c,z,0)+k*(qc(im,c,z,1)+k*qc(im,c,z,2)); if(kb_>0&&k>kb_) v+=(2+im+c)*(k-kb_); return v*(1+0.5*I); }
static int fill_quad(double k, int i){ for(int im=0;im<6;im++)for(int c=0;c<3;c++){ if(k<0.2001){ Q0[i][im][c]=QZ0[i][im][c]=0; continue; } Q0[i][im][c]=gq(im,c,0,k)/sqrt(k); QZ0[i][im][c]=gq(im,c,1,k)/sqrt(k); } return 0; }
static void safim(bool up, double kb)
{
    setup(5,1); fill=fill_quad; kb_=kb; P.dk=0.1; P.kcut=0.15; P.kmax=1.05; P.applySAFIM=true; P.sa_tol=1e-3; double rs[2]={vsym("r",1,50),9};     /* interval [0.25,1.05], breaks at 0.65 (half) or 0.45, 0.85 (quarters) */
    K_INTEG *K=grt_wavenumber_integral(&MS,2,rs,&P,up,ker);
    for(int ir=0;ir<2;ir++){ double r=rs[ir], cf=sqrt(2/(M_PI*r))/P.dk; C3 s[3]={{{0}}};
    for(int im=0;im<6;im++)for(int c=0;c<3;c++){ if(OM[im]==0&&c==2) continue; int q,o; double sg; farform(im,c,&q,&o,&sg); double ph=(2*o+1)*M_PI/4; 
        for(int t=0;t<3;t++)for(int part=0;part<2;part++){ if(kb<=0&&part) break; double a= part? kb:0.25, b= part||kb<=0? 1.05:kb; cplx_t g[4]={0,0,0,0}; int z= t==1; for(int p=0;p<3;p++) g[p]=qc(im,q,z,p)*(1+0.5*I); if(part){ g[1]+=(2+im+q)*(1+0.5*I); g[0]-=(2+im+q)*kb*(1+0.5*I); }
            if(t==2){ g[3]=g[2]; g[2]=g[1]; g[1]=g[0]; g[0]=0; } s[t][im][c]+=sg*cf*osc(g,a,b,r,t==2?ph-M_PI/2:ph); } }
    compare("sum",K->sumJ[ir],s[0]); if(up){ compare("sumz",K->sumJz[ir],s[1]); compare("sumr",K->sumJr[ir],s[2]); } }
    vreach("end");
}
void h_safim(void){ safim(true,-1); } void h_safim_half(void){ safim(false,0.65); } void h_safim_q1(void){ safim(true,0.45); } void h_safim_q3(void){ safim(false,0.85); }
/* direct convergence: for a kernel that has its asymptotic form everywhere (force: C/k, couple: C; z derivative one power higher) the result is the exact infinite integral */
static cplx_t CQ[6][3], CZ[6][3];
static int fill_asym(double k, int i){ for(int im=0;im<6;im++)for(int c=0;c<3;c++){ if(OM[im]==0&&c==2){ Q0[i][im][c]=QZ0[i][im][c]=0; continue; } Q0[i][im][c]= CQ[im][c]*(force(im)? 1/k:1); QZ0[i][im][c]=CZ[im][c]*(force(im)?1:k); } return 0; }
/* int_0^inf J_m(x) x^n dx */
static double weber(int m, int n){ static const double T[3][4]={{0,1,0,-1},{1,1,1,0},{0.5,1,2,3}}; return T[m][n+1]; }
static void dcm(int met)
{
    setup(2,2); oneim=vint("source",0,5); for(int im=0;im<6;im++)for(int c=0;c<3;c++){ CQ[im][c]=sy("c",0,im,c); CZ[im][c]=sy("d",0,im,c); }
    fill=fill_asym; P.cvgmet=K_INTEG_CONVERG_DCM; P.dk=0.1; P.kmax=0.5; if(met){ P.kmax=1.05; P.kcut=0.15; P.filondk=0.3; P.applyFIM= met==1; } double rs[1]={vsym("r",1,50)}; bool up=true;
    K_INTEG *K=grt_wavenumber_integral(&MS,1,rs,&P,up,ker); double r=rs[0];
    for(int im=0;im<6;im++)for(int c=0;c<3;c++){ if(OM[im]==0&&c==2) continue; if(oneim!=im) continue; int m=OM[im];
        for(int z=0;z<2;z++){ int n=(force(im)?0:1)+z; cplx_t (*C)[3]=z?CZ:CQ, q=C[im][0], w=C[im][1], v=C[im][2]; double rn=1; for(int p=0;p<n+1;p++) rn/=r;
            #define W(mm,nn) weber(mm,nn)
            cplx_t near= m==0||met? 0 : m*(q+v)*W(m,n-1)*rn, far, tot, end=0;      /* m (q+v) J_m/x, one power of k lower, times 1/r */
            if(c==0) far=w*W(m,n)*rn; else if(c==1) far= m==0? -q*W(1,n)*rn : q*W(m-1,n)*rn; else far=-v*W(m-1,n)*rn;
            tot= far + (c==1? -near : c==2? near:0);
            /* the sum starts at dk: half a cell of the integrand at k=0 */
            if(n==0){ if(c==0) end= m==0? w:0; if(c==1) end= m==0?0: q-(met?0:(q+v)/2)*m; if(c==2) end= -v+(met?0:(q+v)/2)*m; end*=0.5*P.dk; }
            cplxChnlGrid t={{0}}; grt_merge_Pk(z?K->sumJz[0]:K->sumJ[0],t); char l[16]; snprintf(l,16,z?"z%d":"u%d",c); eqc(l,t[im][c]*P.dk,tot-end);
            if(!z){ cplxChnlGrid tr={{0}}; grt_merge_Pk(K->sumJr[0],tr); double a=creal(tot), b=cimag(tot); snprintf(l,16,"r%d",c); eqc(l,tr[im][c]*P.dk,vdiff(a,"r")+I*vdiff(b,"r")); } } }
    vreach("end");
}
void h_dcm(void){ dcm(0); } void h_dcm_fim(void){ dcm(1); }
/* zero distance with direct convergence: the near-field limit of the unmodified kernel, summed */
void h_dcm_r0(void)
{
    setup(5,1); CPLX=true; oneim=vint("source",0,5); P.dk=0.1; P.kmax=0.25; P.cvgmet=K_INTEG_CONVERG_DCM; double rs[1]={0};
    K_INTEG *K=grt_wavenumber_integral(&MS,1,rs,&P,true,ker);
    C3 s={{0}},z={{0}},d={{0}},e; for(int j=1;j<=3;j++){ int i=find(0.1*j); vtrue("node",i>=0); double k=0.1*j; hankel0(k,Q0[i],false,e); add(s,e,1); hankel0(k,QZ0[i],false,e); add(z,e,1); hankel0(k,Q0[i],true,e); add(d,e,1); }
    compare("sum",K->sumJ[0],s); compare("sumz",K->sumJz[0],z); compare("sumr",K->sumJr[0],d); vreach("end");
}
/* ---- peak-trough averaging ---- */
/* nothing left beyond the discrete sum: the result is the discrete sum, at every distance */
static int fill_cut(double k, int i){ if(k<0.2999999) return fill_any(k,i); for(int im=0;im<6;im++)for(int c=0;c<3;c++) Q0[i][im][c]=QZ0[i][im][c]=0; return 0; }
static void ptam_zero(bool up)
{
    setup(5,1); fill=fill_cut; oneim=vint("source",0,5); P.cvgmet=K_INTEG_CONVERG_PTAM; P.dk=0.1; P.kmax=0.15; double rs[3]={vint("order",0,1)?20:35,0,30}; 
    K_INTEG *K=grt_wavenumber_integral(&MS,3,rs,&P,up,ker);
    for(int ir=0;ir<3;ir++){ C3 s={{0}},z={{0}},d={{0}},e; for(int i=0;i<2;i++){ double k=0.1*(i+1),r=rs[ir]; veq("node",KK[i],k); if(r==0) hankel0(k,Q0[i],false,e); else hankel(k,r,Q0[i],e); add(s,e,1); if(!up) continue; if(r==0) hankel0(k,QZ0[i],false,e); else hankel(k,r,QZ0[i],e); add(z,e,1); if(r==0){ hankel0(k,Q0[i],true,e); add(d,e,1); } }
        compare("sum",K->sumJ[ir],s); if(up){ compare("sumz",K->sumJz[ir],z); if(rs[ir]==0) compare("sumr0",K->sumJr[ir],d); } }
    vreach("end");
}
void h_ptam(void){ ptam_zero(false); } void h_ptam_e(void){ ptam_zero(true); }
/* partial sums with turning points: every turning point is the vertex of the parabola through three consecutive sums, and the result is their repeated mean */
static cplx_t DINC[6]; static double PR;
static int fill_inc(double k, int i){ for(int im=0;im<6;im++)for(int c=0;c<3;c++) Q0[i][im][c]=QZ0[i][im][c]=0; if(i>34&&i<=39) Q0[i][0][1]=DINC[i-34]/(k*j0(k*PR)); return 0; }
static void ptam_turn(bool cx)
{
    setup(5,1); fill=fill_inc; P.cvgmet=K_INTEG_CONVERG_PTAM; P.dk=0.05; P.kmax=0.02; PR=20; double rs[1]={PR}; cplx_t S[200]; S[0]=0; int n=0;
    for(int i=1;i<6;i++){ char b[8]; snprintf(b,8,"d%d",i); double x= i>3? 0: !cx? vsym(b,-4,4): i==3? -1:1, y=0; if(cx&&i<=3){ snprintf(b,8,"e%d",i); y=vsym(b,-9,9); } if(i<=3) vassume(x*x>1e-4); DINC[i]=x+I*y; }
    K_INTEG *K=grt_wavenumber_integral(&MS,1,rs,&P,false,ker);
    for(int i=1;i<NK;i++){ cplx_t d= i>34&&i<=39? DINC[i-34]:0; S[i]=S[i-1]+d; } n=NK-1;
    /* S[1..n]: sums after the nodes added here */
    cplx_t F[36]; int nf=0, since=0; int waits=(int)ceil(M_PI/(PR*0.05))+5;
    for(int i=1;i<=n&&nf<36;i++){ if(since>=2){ cplx_t f1=S[i-2],f2=S[i-1],f3=S[i]; double a=creal(f1),b=creal(f2),c=creal(f3); bool top=a<=b&&b>=c, bot=a>=b&&b<=c;
            if(top||bot){ cplx_t A=(f1+f3)/2-f2, B=(f3-f1)/2, v=f2; double aa=creal(A)*creal(A)+cimag(A)*cimag(A); if(aa>0){ double t=-(creal(B)*creal(A)+cimag(B)*cimag(A))/(2*aa); vassume((t-1)*(t-1)>1e-8&&(t+1)*(t+1)>1e-8); if(t>-1&&t<1) v=f2+B*t+A*t*t; } F[nf++]=v; since=0; }
            else if(since>=waits){ F[nf++]=f2; since=0; } }
        since++; }
    vtrue("count",nf==36); for(int m=nf;m>1;m--) for(int i=0;i+1<m;i++) F[i]=0.5*(F[i]+F[i+1]);
    cplxChnlGrid t={{0}}; grt_merge_Pk(K->sumJ[0],t); eqc("mean",t[0][0],F[0]); vreach("end");
}
void h_ptam_turn(void){ ptam_turn(false); } void h_ptam_turn_c(void){ ptam_turn(true); }
/* ---- upper limit ---- */
static double KB, CA; static bool SAMEZ; static int BUMP=-1;   /* BUMP: one late sample that has not settled */
static void kker(MODEL1D_STATE *m, real_t k, cplxChnlGrid QWV, bool up, cplxChnlGrid QWVz)
{
    (void)m; vtrue("derivs",up); KK[NK++]=k; bool un= k<KB||NK-1==BUMP; for(int im=0;im<6;im++)for(int c=0;c<3;c++){ bool none= OM[im]==0&&c==2; double a= none? 0 : 1+0.1*im+0.2*c, f=1, fz=1;
        if(SAMEZ){ f= force(im)? 1/k:1; fz= force(im)? 1:k; if(un) f*=1+(1+(NK&1))*CA; } else { f= un? 1: 1e-4; fz= un? CA : 1e-4; }
        QWV[im][c]=a*f*(1-0.5*I); QWVz[im][c]=a*fz*0.3; if(none) QWV[im][c]=NK; }
}
static void kmaxh(bool same, double init)
{
    setup(2,same?2:3); SAMEZ=same; CA= same? 5:1; NK=0; double ref=1; KB= BUMP<0? vsym("settles",init<0.5?0.7:0.92,1.05) : vsym("settles",0.9001,0.9002); double low= init<0.5||BUMP>=0? 0:vsym("low",0,1.2); size_t nc=99;
    double got=grt_predict_kmax(&MS,kker,init,low,ref,&nc);
    vtrue("range",got>=(init<ref?init:ref)-1e-12&&got<=ref); vtrue("order",NK==0||KK[0]==init);
    if(init>=ref){ vtrue("none",NK==0&&got==ref); vreach("end"); return; }
    for(int i=0;i+1<NK;i++){ double s=KK[i+1]-KK[i]; vtrue("step",s>0&&s<=ref/40+1e-12&&s<=0.5*KK[i]+1e-12); } vtrue("inside",KK[NK-1]<=ref);
    /* the first sample where it has been settled three times in a row at or beyond the required wavenumber */
    double want=ref; int run=0; for(int i=0;i<NK;i++){ vassume((KK[i]-KB)*(KK[i]-KB)>1e-10&&(KK[i]-low)*(KK[i]-low)>1e-10); bool ok= KK[i]>=low && i!=BUMP && (same? i>0&&i-1!=BUMP&&KK[i-1]>KB : KK[i]>KB); run= ok? run+1:0; if(run==3){ want=KK[i]; break; } }
    veq("limit",got,want); vreach("end");
}
void h_kmax(void){ kmaxh(false,0.9); } void h_kmax_same(void){ kmaxh(true,0.9); } void h_kmax_none(void){ kmaxh(vint("same",0,1),1.0); } void h_kmax_far(void){ kmaxh(false,0.3); }
void h_kmax_bump(void){ BUMP=vint("bump",1,5); kmaxh(vint("same",0,1),0.9); }
