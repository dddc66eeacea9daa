/* Dynamic synthesis end to end: Green's functions on disk -> seismograms on disk. */
#include "verif.h"
#include "grt.h"
int syn_main(int,char**);
enum { NT=2 };
static const char *SRC[6]={"EX","VF","HF","DD","DS","SS"}; static const int ORD[6]={0,0,1,0,1,2};
static double G[3][6][3][8];           /* [value,z,r][source][component][sample] */
static int nT=NT; static double DT=0.5, WI=0;
static void wr(const char *path, const double *v, double dist, const double *med)
{
    SACTRACE *s=grt_new_SACTRACE(DT,nT,0.0f); s->hd.dist=dist; s->hd.evdp=2.0; s->hd.stel=-1e3; s->hd.user0=WI; s->hd.user6=med[0]; s->hd.user7=med[1]; s->hd.user8=med[2];
    for(int i=0;i<nT;i++) s->data[i]=v[i]; grt_write_SACTRACE(path,s); grt_free_SACTRACE(s);
}
static bool need(int k, int im){ return k==0? im==0 : k==1? (im==1||im==2) : k==2? im>=3 : (im==0||im>=3); }
static void grn(const char *dir, int kind, bool upar, double dist, const double *med)
{
    char b[128], n[32]; mkdir(dir,0777);
    for(int im=0;im<6;im++) if(need(kind,im)) for(int c=0;c<3;c++){
        if(ORD[im]==0&&c==2) continue;
        for(int t=0;t<(upar?3:1);t++){
            for(int i=0;i<nT;i++){ snprintf(n,32,"g%d_%d_%d_%d",t,im,c,i); G[t][im][c][i]=vsym(n,-9,9); }
            snprintf(b,128,"%s/%s%s%c.sac",dir,t==0?"":t==1?"z":"r",SRC[im],"ZRT"[c]); wr(b,G[t][im][c],dist,med);
        }
    }
}
/* radiation A[im][c] and its azimuth derivative B, from the source description */
static double A[6][3], B[6][3];
static void rad(int kind, double M0, double az, double vpvs, const double *m)
{
    double c=cos(az), s=sin(az); memset(A,0,sizeof(A)); memset(B,0,sizeof(B));
    if(kind==0){ A[0][0]=A[0][1]=1e-20*M0; return; }
    if(kind==1){ double u=1e-15*M0; A[1][0]=A[1][1]=u*m[2]; A[2][0]=A[2][1]=u*(m[0]*c+m[1]*s); A[2][2]=u*(m[1]*c-m[0]*s); B[2][0]=B[2][1]=A[2][2]; B[2][2]=-A[2][0]; return; }
    double M[3][3], q=DEG1;
    if(kind==4){ double t[3][3]={{m[0],m[1],m[2]},{m[1],m[3],m[4]},{m[2],m[4],m[5]}}; memcpy(M,t,sizeof(t)); }
    else {
        double st=m[0]*q, di=m[1]*q, ra=m[2]*q, n[3]={-sin(di)*sin(st), sin(di)*cos(st), -cos(di)};
        double d[3]={cos(ra)*cos(st)+cos(di)*sin(ra)*sin(st), cos(ra)*sin(st)-cos(di)*sin(ra)*cos(st), -sin(ra)*sin(di)};
        for(int i=0;i<3;i++)for(int j=0;j<3;j++) M[i][j]= kind==2? n[i]*d[j]+n[j]*d[i] : 2.0*n[i]*n[j]+(i==j?vpvs*vpvs-2.0:0.0);
    }
    double u=1e-20*M0, tr=(M[0][0]+M[1][1]+M[2][2])/3.0;
    double Mrr=c*c*M[0][0]+2.0*c*s*M[0][1]+s*s*M[1][1], Mtt=s*s*M[0][0]-2.0*c*s*M[0][1]+c*c*M[1][1];
    double Mrt=c*s*(M[1][1]-M[0][0])+(c*c-s*s)*M[0][1], Mrz=c*M[0][2]+s*M[1][2], Mtz=c*M[1][2]-s*M[0][2];
    A[0][0]=A[0][1]=u*tr; A[3][0]=A[3][1]=u*(M[2][2]-tr)/2.0; A[4][0]=A[4][1]=-u*Mrz; A[4][2]=-u*Mtz; A[5][0]=A[5][1]=u*(Mrr-Mtt)/2.0; A[5][2]=u*Mrt;
    B[4][0]=B[4][1]=-u*Mtz; B[4][2]=u*Mrz; B[5][0]=B[5][1]=2.0*u*Mrt; B[5][2]=-u*(Mrr-Mtt);
}
static char *cat(const char *a, const char *b){ char *r=malloc(strlen(a)+strlen(b)+1); strcpy(r,a); strcat(r,b); return r; }
static char *opt(const char *o, int n, const double *v){ char *r=strdup(o); for(int i=0;i<n;i++){ if(i) r=cat(r,"/"); r=cat(r,vstr(v[i])); } return r; }
static char *AV[24]; static int AC;
static void arg(char *s){ AV[AC++]=s; AV[AC]=NULL; }
static int ZP=-1;
static void source(int kind, double *m)
{
    if(ZP>=0){ int n= kind==1?3:6; for(int i=0;i<n;i++){ char b[8]; snprintf(b,8,"m%d",i); m[i]= (ZP>>i)&1? vsym(b,-9,9):0.0; } arg(opt(kind==1?"-F":"-T",n,m)); return; }
    if(kind==1){ for(int i=0;i<3;i++){ char b[8]; snprintf(b,8,"f%d",i); m[i]=vsym(b,-9,9); } arg(opt("-F",3,m)); }
    if(kind==2||kind==3){ m[0]=vsym("strike",0,360); m[1]=vsym("dip",0,90); m[2]= kind==2? vsym("rake",-180,180):0; arg(opt("-M",kind==2?3:2,m)); }
    if(kind==4){ for(int i=0;i<6;i++){ char b[8]; snprintf(b,8,"m%d",i); m[i]=vsym(b,-9,9); } arg(opt("-T",6,m)); }
}
static float *rd(const char *name, double az, double dist)
{
    char b[64]; snprintf(b,64,"o/%s.sac",name); SACTRACE *s=grt_read_SACTRACE(b,false); vtrue("npts",s->hd.npts==nT);
    veq("delta",s->hd.delta,DT); veq("hdaz",s->hd.az,az); veq("hddist",s->hd.dist,dist); vtrue("kcmpnm",strncmp(s->hd.kcmpnm,name,strlen(name))==0);
    return s->data;
}
static void run(int kind, bool upar, bool zne, bool r0, bool smu)
{
    vopt("generic",1);                 /* radiation factors that vanish exactly: h_zero */
    double dist=r0?0.0:vsym("dist",0.01,500), az0= ZP>=0? 0.0 : vsym("az",0,360), az=r0?0.0:az0, M0=vsym("M0",1,1e20);
    double med[3]={vsym("va",1,9),vsym("vb",0.5,5),vsym("rho",1,5)}, m[6]={0};
    AC=0; arg("syn"); arg("-Gg"); arg("-Oo"); arg(opt("-A",1,&az0)); arg(opt(smu?"-Su":"-S",1,&M0));
    source(kind,m); if(upar) arg("-e"); if(zne) arg("-N"); arg("-s");
    grn("g",kind,upar,dist,med);
    optind=1; syn_main(AC,AV);
    double Me = smu? M0*med[1]*med[1]*med[2]*1e10 : M0;
    rad(kind,Me,az*DEG1,med[0]/med[1],m);
    double c=cos(az*DEG1), s=sin(az*DEG1), rc=dist*1e5;
    double o[3][NT], p[3][3][NT];      /* p[direction][component] */
    for(int i=0;i<NT;i++) for(int k=0;k<3;k++){
        o[k][i]=0; for(int d=0;d<3;d++) p[d][k][i]=0;
        for(int im=0;im<6;im++){ if(!need(kind,im)||(ORD[im]==0&&k==2)) continue;
            o[k][i]+=A[im][k]*G[0][im][k][i];
            if(upar){ p[0][k][i]+=1e-5*A[im][k]*G[1][im][k][i]; p[1][k][i]+=1e-5*A[im][k]*G[2][im][k][i];
                p[2][k][i]+= r0? 1e-5*B[im][k]*G[2][im][k][i] : B[im][k]*G[0][im][k][i]/rc; } }
    }
    if(zne) for(int i=0;i<NT;i++){
        double u[3]={o[0][i],o[1][i],o[2][i]}, w[3][3], Q[3][3]={{1,0,0},{0,c,s},{0,-s,c}};
        for(int d=0;d<3;d++)for(int k=0;k<3;k++) w[d][k]= upar? p[d][k][i]:0;
        if(upar){ double ror= r0? w[1][1] : u[1]/rc, tor= r0? w[1][2] : u[2]/rc; w[2][1]-=tor; w[2][2]+=ror; }   /* true gradient tensor in (z,r,t) */
        for(int k=0;k<3;k++){ o[k][i]=0; for(int l=0;l<3;l++) o[k][i]+=Q[l][k]*u[l]; for(int d=0;d<3;d++) if(upar){ p[d][k][i]=0; for(int a=0;a<3;a++)for(int b=0;b<3;b++) p[d][k][i]+=Q[a][d]*w[a][b]*Q[b][k]; } }
    }
    const char *ch= zne?"ZNE":"ZRT"; char nm[4];
    for(int k=0;k<3;k++){ snprintf(nm,4,"%c",ch[k]); float *f=rd(nm,az,dist); for(int i=0;i<NT;i++) veq("syn",f[i],o[k][i]);
        if(upar) for(int d=0;d<3;d++){ snprintf(nm,4,"%c%c",tolower(ch[d]),ch[k]); f=rd(nm,az,dist); for(int i=0;i<NT;i++) veq("synpar",f[i],p[d][k][i]); } }
    vreach("end");
}
/* vanishing radiation factors: moment tensor components / forces that are exactly zero, azimuth 0 */
#define K(nm,k) void h_##nm(void){ run(k,false,false,false,false); } void h_##nm##_e(void){ run(k,true,false,false,true); } \
  void h_##nm##_N(void){ run(k,false,true,false,true); } void h_##nm##_eN(void){ run(k,true,true,false,false); } void h_##nm##_e0(void){ run(k,true,false,true,false); } void h_##nm##_eN0(void){ run(k,true,true,true,false); }
K(ex,0) K(sf,1) K(dc,2) K(ts,3) K(mt,4)

/* time-domain post-processing: convolution with a time function (periodic in the trace window), integration, differentiation */
static int NH=3;
static void post(int mode)
{
    nT=4; DT=0.25; double M0=vsym("M0",1,1e20), med[3]={5,3,2}, az=30.0, dist=10.0; WI= mode==0? vsym("wI",0,2) : 0.0; if(mode==0) vassume(exp(DT*WI)>0.0);
    AC=0; arg("syn"); arg("-Gg"); arg("-Oo"); arg(opt("-A",1,&az)); arg(opt("-S",1,&M0)); arg("-s");
    double h[8]={0}; int nh=0;
    if(mode==0){ FILE *f=fopen("tf.txt","w"); nh=NH; for(int i=0;i<nh;i++){ char b[8]; snprintf(b,8,"h%d",i); h[i]=vsym(b,-9,9); fprintf(f,"%s\n",vstr(h[i])); } fclose(f); arg("-D0/tf.txt"); }
    if(mode==1) arg("-I1"); if(mode==2) arg("-J1"); if(mode==3) arg("-I2"); if(mode==4) arg("-J2");
    grn("g",0,false,dist,med); optind=1; syn_main(AC,AV);
    for(int k=0;k<2;k++){
        double x[8], y[8]; for(int i=0;i<nT;i++) y[i]=x[i]=1e-20*M0*G[0][0][k][i];
        if(mode==0) for(int i=0;i<nT;i++){ y[i]=0; for(int j=0;j<nh;j++){ int n=i-j; double w=1; while(n<0){ n+=nT; w*=exp(-WI*DT*nT); } y[i]+=x[n]*h[j]*w*DT; } }
        for(int t=0;t<(mode==1?1:mode==3?2:0);t++){ double z[8]; z[0]=0; for(int i=1;i<nT;i++) z[i]=z[i-1]+0.5*DT*(y[i]+y[i-1]); memcpy(y,z,sizeof(z)); }
        for(int t=0;t<(mode==2?1:mode==4?2:0);t++){ double z[8]; z[0]=(y[1]-y[0])/DT; z[nT-1]=(y[nT-1]-y[nT-2])/DT; for(int i=1;i<nT-1;i++) z[i]=(y[i+1]-y[i-1])/(2.0*DT); memcpy(y,z,sizeof(z)); }
        float *f=rd(k==0?"Z":"R",az,dist); for(int i=0;i<nT;i++) veq("post",f[i],y[i]);
    }
    if(mode==0){ SACTRACE *s=grt_read_SACTRACE("o/sig.sac",false); vtrue("signpts",s->hd.npts==nh); for(int i=0;i<nh;i++) veq("sig",s->data[i],h[i]); }
    vreach("end");
}
void h_conv(void){ post(0); } void h_convlong(void){ NH=6; post(0); } void h_int(void){ post(1); } void h_dif(void){ post(2); } void h_int2(void){ post(3); } void h_dif2(void){ post(4); }

/* directory of Green's functions: the subdirectory with the requested depths and distance is used, or the program stops */
void h_select(void)
{
    nT=1; double med[3]={5,3,2}, v[2], dep[2], rcv[2], dis[2], az=10, M0=1e20; mkdir("r",0777);
    dep[0]=2.0; rcv[0]=0.0; dis[0]=10.0; dep[1]= vint("dd",0,1)? 3.0:2.0; rcv[1]= vint("dr",0,1)? 1.0:0.0; dis[1]= vint("dx",0,1)? 20.0:10.0;
    bool same = dep[0]==dep[1]&&rcv[0]==rcv[1]&&dis[0]==dis[1]; vassume(!same);
    for(int j=0;j<2;j++){ char b[64]; v[j]=vsym(j?"b":"a",-9,9); snprintf(b,64,"r/s%d",j); mkdir(b,0777);
        for(int k=0;k<2;k++){ snprintf(b,64,"r/s%d/EX%c.sac",j,"ZR"[k]); SACTRACE *s=grt_new_SACTRACE(0.5f,1,0.0f); s->hd.dist=dis[j]; s->hd.evdp=dep[j]; s->hd.stel=-rcv[j]*1e3; s->hd.user6=5; s->hd.user7=3; s->hd.user8=2; s->hd.user0=0; s->data[0]=v[j]*(k+1); grt_write_SACTRACE(b,s); grt_free_SACTRACE(s); } }
    bool gs=vint("gs",0,1), gr=vint("gr",0,1), gd=vint("gd",0,1); int w=vint("want",0,2);
    double ws= w==2? 2.5:dep[w], wr_= w==2? 0.5:rcv[w], wd= w==2? 15.0:dis[w];
    AC=0; arg("syn"); arg("-Gr"); arg("-Oo"); arg(opt("-A",1,&az)); arg(opt("-S",1,&M0)); arg("-s");
    if(gs) arg(opt("-Ds",1,&ws)); if(gr) arg(opt("-Dr",1,&wr_)); if(gd) arg(opt("-R",1,&wd));
    /* expectation */
    int nm=0, pick=-1; for(int j=0;j<2;j++) if((!gs||ws==dep[j])&&(!gr||wr_==rcv[j])&&(!gd||wd==dis[j])){ nm++; pick=j; }
    bool ok = nm==1 && (gs||dep[0]==dep[1]) && (gr||rcv[0]==rcv[1]) && (gd||dis[0]==dis[1]);
    optind=1; vexit_ok(); 
    if(ok) vnoerr("selection");
    syn_main(AC,AV);
    vtrue("accepted",ok);
    float *f=rd("Z",az,dis[pick>=0?pick:0]); veq("value",f[0],v[pick>=0?pick:0]);
    vreach("end");
}
/* refused input: azimuth or mechanism out of range never produces a seismogram */
void h_reject(void)
{
    vopt("generic",1); nT=1; double dist=10, med[3]={5,3,2}, az=vsym("az",-400,800), M0=1, m[3]={vsym("strike",-400,800),vsym("dip",-100,200),vsym("rake",-400,400)};
    bool good = az>=0&&az<=360&&m[0]>=0&&m[0]<=360&&m[1]>=0&&m[1]<=90&&m[2]>=-180&&m[2]<=180;
    AC=0; arg("syn"); arg("-Gg"); arg("-Oo"); arg(opt("-A",1,&az)); arg(opt("-S",1,&M0)); arg(opt("-M",3,m)); arg("-s"); grn("g",2,false,dist,med);
    optind=1; vexit_ok(); if(good) vnoerr("valid input refused");
    syn_main(AC,AV); vtrue("accepted",good); vreach("end");
}

void h_zero_mt(void){ ZP=vint("zeros",0,63); run(4,true,true,false,false); }
void h_zero_sf(void){ ZP=vint("zeros",0,7); run(1,true,true,false,false); }
