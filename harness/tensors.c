/* strain / stress / rotation modules, end to end through their files.  A displacement field with arbitrary Cartesian value and
 * gradient is written in the chosen component system; the outputs must be the tensor of that field in that system. */
#include "verif.h"
#include "grt.h"
int strain_main(int,char**), stress_main(int,char**), rotation_main(int,char**);
int static_strain_main(int,char**), static_stress_main(int,char**), static_rotation_main(int,char**);
#define NT 2
static double S(const char *p, int i, double lo, double hi){ char b[32]; snprintf(b,sizeof b,"%s%d",p,i); return vsym(b,lo,hi); }
typedef struct { double u[3], p[3][3]; } FLD;               /* p[direction][component], (z,x,y) or (z,r,t) */
static void tocyl(double c, double s, double r, const FLD *f, FLD *g)
{
    double Q[3][3]={{1,0,0},{0,c,s},{0,-s,c}};
    for(int i=0;i<3;i++){ g->u[i]=0; for(int k=0;k<3;k++) g->u[i]+=Q[i][k]*f->u[k];
        for(int j=0;j<3;j++){ g->p[i][j]=0; for(int k=0;k<3;k++)for(int l=0;l<3;l++) g->p[i][j]+=Q[i][k]*f->p[k][l]*Q[j][l]; } }
    double ror = r>0? g->u[1]/r : g->p[1][1], tor = r>0? g->u[2]/r : g->p[1][2];
    g->p[2][1]+=tor; g->p[2][2]-=ror;
}
static void grad(double c, double s, bool zne, const FLD *f, double o[3][3])   /* o[i][j] = d_i u_j in the output basis */
{
    double Q[3][3]={{1,0,0},{0,c,s},{0,-s,c}};
    for(int i=0;i<3;i++)for(int j=0;j<3;j++){ o[i][j]=0; if(zne){ o[i][j]=f->p[i][j]; continue; } for(int k=0;k<3;k++)for(int l=0;l<3;l++) o[i][j]+=Q[i][k]*f->p[k][l]*Q[j][l]; }
}
static FLD F[8], C[8];
static double ct, st;
static void fields(int n, const double *r)
{
    for(int i=0;i<n;i++){ for(int a=0;a<3;a++) F[i].u[a]=S(i?"v":"u",a,-9,9); for(int a=0;a<9;a++) F[i].p[a/3][a%3]=S(i?"q":"p",a,-9,9); tocyl(ct,st,r[i],&F[i],&C[i]); }
}
static void angle(void){ double th=vsym("th",-3,3); ct=cos(th); st=sin(th); }
/* ------------------------------------------------ dynamic (SAC) */
static void wr(const char *path, double v[NT], int nt, double dist, const double *med)
{
    SACTRACE *s=grt_new_SACTRACE(0.5f, nt, 0.0f); s->hd.dist=dist; if(med){ s->hd.user1=med[0]; s->hd.user2=med[1]; s->hd.user3=med[2]; s->hd.user4=med[3]; s->hd.user5=med[4]; }
    for(int i=0;i<nt;i++) s->data[i]=v[i];
    grt_write_SACTRACE(path,s); grt_free_SACTRACE(s);
}
static void wrall(bool zne, int nt, double dist, const double *med)
{
    const char *ch= zne? "ZNE":"ZRT"; char b[64]; double v[8]; mkdir("d",0777);
    for(int c=0;c<3;c++){ for(int i=0;i<nt;i++) v[i]=(zne?F:C)[i].u[c]; snprintf(b,64,"d/%c.sac",ch[c]); wr(b,v,nt,dist,med);
        for(int d=0;d<3;d++){ for(int i=0;i<nt;i++) v[i]=(zne?F:C)[i].p[d][c]; snprintf(b,64,"d/%c%c.sac",tolower(ch[d]),ch[c]); wr(b,v,nt,dist,med); } }
}
static float *rd(const char *k, char a, char b2, int nt)
{
    char b[64]; snprintf(b,64,"d/%s_%c%c.sac",k,a,b2); SACTRACE *s=grt_read_SACTRACE(b,false); vtrue("npts",s->hd.npts==nt);
    char cmp[3]={a,b2,0}; vtrue("kcmpnm", strncmp(s->hd.kcmpnm,cmp,2)==0); veq("delta",s->hd.delta,0.5); return s->data;
}
static void dyn(int kind, bool zne, bool r0)
{
    double dist = r0? 0.0 : vsym("dist",0.01,500), r[NT]; for(int i=0;i<NT;i++) r[i]=dist*1e5;
    angle(); fields(NT,r);
    double med[5]={vsym("va",1,9),vsym("vb",0,5),vsym("rho",1,5),0,0};
    wrall(zne,NT,dist,med);
    char *av[]={"x","d",NULL}; optind=1;
    const char *ch= zne? "ZNE":"ZRT";
    if(kind==0) strain_main(2,av); else if(kind==1) rotation_main(2,av); else stress_main(2,av);
    double mu=med[1]*med[1]*med[2]*1e10, lam=med[0]*med[0]*med[2]*1e10-2.0*mu;
    for(int a=0;a<3;a++)for(int b=(kind==1?a+1:a);b<3;b++){
        float *o=rd(kind==0?"strain":kind==1?"rotation":"stress",ch[a],ch[b],NT);
        for(int i=0;i<NT;i++){ double g[3][3]; grad(ct,st,zne,&F[i],g);
            double e = kind==1? 0.5*(g[b][a]-g[a][b]) : 0.5*(g[a][b]+g[b][a]);
            if(kind==2) e = 2.0*mu*e + (a==b? lam*(g[0][0]+g[1][1]+g[2][2]):0.0);
            veq(kind==0?"strain":kind==1?"rotation":"stress", o[i], e); }
    }
    vreach("end");
}
void h_strain_zne(void){ dyn(0,true,false); }
void h_strain_zrt(void){ dyn(0,false,false); }
void h_strain_zrt0(void){ dyn(0,false,true); }
void h_rotation_zne(void){ dyn(1,true,false); }
void h_rotation_zrt(void){ dyn(1,false,false); }
void h_rotation_zrt0(void){ dyn(1,false,true); }
void h_stress_zne(void){ dyn(2,true,false); }
void h_stress_zrt(void){ dyn(2,false,false); }
void h_stress_zrt0(void){ dyn(2,false,true); }
/* attenuation: each frequency uses the complex moduli of that frequency, relative to the last sampled one.
 * The reference spectrum is summed by definition (N samples, n/2+1 frequencies), for even and odd N. */
static void stressQ(bool zne, int N)
{
    double dist=vsym("dist",0.01,500), r[4]; for(int i=0;i<N;i++) r[i]=dist*1e5;
    angle();
    for(int i=0;i<N;i++){ for(int a=0;a<3;a++) F[i].u[a]=S("u",10*i+a,-9,9); for(int a=0;a<9;a++) F[i].p[a/3][a%3]=S("p",10*i+a,-9,9); tocyl(ct,st,r[i],&F[i],&C[i]); }
    double med[5]={vsym("va",1,9),vsym("vb",0,5),vsym("rho",1,5),vsym("qa",0.001,0.1),vsym("qb",0.001,0.1)};
    wrall(zne,N,dist,med);
    char *av[]={"x","d",NULL}; optind=1; const char *ch= zne? "ZNE":"ZRT";
    stress_main(2,av);
    int nf=N/2+1; double complex mu[3], lam[3]; static volatile double FR[3]={0.01,0.5,1.0}, FO[3]={0.015,1.0,1.0};
    static volatile double RE4[4]={1,0,-1,0}, IM4[4]={0,-1,0,1}, RE3[3]={1,-0.5,-0.5}, IM3[3]={0,-0.8660254037844386,0.8660254037844386};
    for(int f=0;f<nf;f++){ double l=log(N==4?FR[f]:FO[f]); double complex A=1.0+med[3]/PI*l+0.5*med[3]*I, B=1.0+med[4]/PI*l+0.5*med[4]*I;
        mu[f]=med[1]*med[1]*B*B*med[2]*1e10; lam[f]=med[0]*med[0]*A*A*med[2]*1e10-2.0*mu[f]; }
    for(int a=0;a<3;a++)for(int b=a;b<3;b++){
        float *o=rd("stress",ch[a],ch[b],N);
        double E[4],T[4]; for(int i=0;i<N;i++){ double g[3][3]; grad(ct,st,zne,&F[i],g); E[i]=g[a][b]+g[b][a]; T[i]=a==b? g[0][0]+g[1][1]+g[2][2]:0.0; }
        double complex s[3];
        for(int f=0;f<nf;f++){ double complex Ef=0,Tf=0; for(int i=0;i<N;i++){ int k=(f*i)%N; double complex w= N==4? RE4[k]+I*IM4[k] : RE3[k]+I*IM3[k]; Ef+=w*E[i]; Tf+=w*T[i]; } s[f]=mu[f]*Ef+lam[f]*Tf; }
        for(int i=0;i<N;i++){ double e=creal(s[0]);
            for(int f=1;f<nf;f++){ int k=(f*i)%N; double c=N==4?RE4[k]:RE3[k], d=N==4?-IM4[k]:-IM3[k]; if(2*f==N) e+=c*creal(s[f]); else e+=2.0*(c*creal(s[f])-d*cimag(s[f])); }
            veq("stressQ",o[i],e/N); }
    }
    vreach("end");
}
void h_stressQ_zne(void){ stressQ(true,4); }
void h_stressQ_zrt(void){ stressQ(false,4); }
void h_stressQ3_zne(void){ stressQ(true,3); }
void h_stressQ3_zrt(void){ stressQ(false,3); }
/* ------------------------------------------------ static (NetCDF) */
#define NC(x) do{ if((x)!=NC_NOERR) vtrue("netcdf",false); }while(0)
static void stnc(int kind, bool zne, int layout)      /* layout 0: grid 2x1, 1: grid 1x2, 2: points with own media, 3: points, global medium */
{
    enum { n=2 };
    double nor[n], eas[n], dist[n], med[n][3]; bool grid=layout<2;
    double x0=vsym("north0",-100,100), y0=vsym("east0",-100,100), x1= layout==1? x0 : vsym("north1",-100,100), y1= layout==0? y0 : vsym("east1",-100,100);
    nor[0]=x0; nor[1]=x1; eas[0]=y0; eas[1]=y1;
    for(int i=0;i<n;i++){ dist[i]=hypot(nor[i],eas[i]); vassume(dist[i]>0.001); }
    for(int i=0;i<n;i++)for(int k=0;k<3;k++) med[i][k]= (i==0||layout==2)? S(k==0?"va":k==1?"vb":"rho",i,k==1?0:1,9) : med[0][k];
    double cs[n], sn[n];
    for(int i=0;i<n;i++){ cs[i]=nor[i]/dist[i]; sn[i]=eas[i]/dist[i];
        for(int a=0;a<3;a++) F[i].u[a]=S(i?"v":"u",a,-9,9); for(int a=0;a<9;a++) F[i].p[a/3][a%3]=S(i?"q":"p",a,-9,9); tocyl(cs[i],sn[i],dist[i]*1e5,&F[i],&C[i]); }
    int id, dim[2], nd, v, vid[40], k=0, vn, ve, vm[3]; const char *ch= zne?"ZNE":"ZRT"; char b[32];
    NC(nc_create("s.nc",NC_CLOBBER|NC_NETCDF4,&id));
    int i1=zne, iu=1; NC(nc_put_att_int(id,NC_GLOBAL,"rot2ZNE",NC_INT,1,&i1)); NC(nc_put_att_int(id,NC_GLOBAL,"calc_upar",NC_INT,1,&iu));
    if(layout!=2) for(int j=0;j<3;j++) NC(nc_put_att_double(id,NC_GLOBAL,j==0?"rcv_va":j==1?"rcv_vb":"rcv_rho",NC_DOUBLE,1,&med[0][j]));
    if(grid){ NC(nc_def_dim(id,"north",layout==0?2:1,&dim[0])); NC(nc_def_dim(id,"east",layout==0?1:2,&dim[1])); nd=2; NC(nc_def_var(id,"north",NC_DOUBLE,1,&dim[0],&vn)); NC(nc_def_var(id,"east",NC_DOUBLE,1,&dim[1],&ve)); }
    else { NC(nc_put_att_text(id,NC_GLOBAL,"layout",strlen(GRT_RECV_LAYOUT_POINTS),GRT_RECV_LAYOUT_POINTS)); NC(nc_def_dim(id,"point",2,&dim[0])); nd=1; NC(nc_def_var(id,"north",NC_DOUBLE,1,dim,&vn)); NC(nc_def_var(id,"east",NC_DOUBLE,1,dim,&ve)); }
    if(layout==2) for(int j=0;j<3;j++) NC(nc_def_var(id,j==0?"rcv_va":j==1?"rcv_vb":"rcv_rho",NC_DOUBLE,1,dim,&vm[j]));
    for(int c=0;c<3;c++){ snprintf(b,32,"%c",ch[c]); NC(nc_def_var(id,b,NC_DOUBLE,nd,dim,&vid[k++])); for(int d=0;d<3;d++){ snprintf(b,32,"%c%c",tolower(ch[d]),ch[c]); NC(nc_def_var(id,b,NC_DOUBLE,nd,dim,&vid[k++])); } }
    NC(nc_enddef(id));
    NC(nc_put_var_double(id,vn,nor)); NC(nc_put_var_double(id,ve,eas));
    if(layout==2) for(int j=0;j<3;j++){ double t[n]; for(int i=0;i<n;i++) t[i]=med[i][j]; NC(nc_put_var_double(id,vm[j],t)); }
    k=0; for(int c=0;c<3;c++){ double t[n]; for(int i=0;i<n;i++) t[i]=(zne?F:C)[i].u[c]; NC(nc_put_var_double(id,vid[k++],t)); for(int d=0;d<3;d++){ for(int i=0;i<n;i++) t[i]=(zne?F:C)[i].p[d][c]; NC(nc_put_var_double(id,vid[k++],t)); } }
    NC(nc_close(id));
    char *av[]={"x","s.nc",NULL}; optind=1;
    if(kind==0) static_strain_main(2,av); else if(kind==1) static_rotation_main(2,av); else static_stress_main(2,av);
    NC(nc_open("s.nc",NC_NOWRITE,&id));
    for(int a=0;a<3;a++)for(int bb=(kind==1?a+1:a);bb<3;bb++){
        double o[n]; snprintf(b,32,"%s_%c%c",kind==0?"strain":kind==1?"rotation":"stress",ch[a],ch[bb]); NC(nc_inq_varid(id,b,&v)); NC(nc_get_var_double(id,v,o));
        for(int i=0;i<n;i++){ double g[3][3]; grad(cs[i],sn[i],zne,&F[i],g);
            double mu=med[i][1]*med[i][1]*med[i][2]*1e10, lam=med[i][0]*med[i][0]*med[i][2]*1e10-2.0*mu;
            double e = kind==1? 0.5*(g[bb][a]-g[a][bb]) : 0.5*(g[a][bb]+g[bb][a]);
            if(kind==2) e = 2.0*mu*e + (a==bb? lam*(g[0][0]+g[1][1]+g[2][2]):0.0);
            veq(kind==0?"strain":kind==1?"rotation":"stress", o[i], e); }
    }
    NC(nc_close(id));
    vreach("end");
}
#define ST(nm,k) void h_st##nm##_zne(void){ stnc(k,true,vint("lay",0,3)); } void h_st##nm##_zrt(void){ stnc(k,false,vint("lay",0,3)); }
ST(strain,0) ST(rotation,1) ST(stress,2)
/* r = 0: the connection terms become radial derivatives */
static void stat0(int kind)
{
    FLD *f=&F[0]; double z=0, med[3]={vsym("va",1,9),vsym("vb",0,9),vsym("rho",1,9)};
    for(int a=0;a<3;a++) f->u[a]=S("u",a,-9,9); for(int a=0;a<9;a++) f->p[a/3][a%3]=S("p",a,-9,9); tocyl(1,0,0,f,&C[0]);
    int id, dim[2], vn, ve, vid[12], k=0, i1=0, iu=1; char b[32]; const char *ch="ZRT";
    NC(nc_create("s.nc",NC_CLOBBER|NC_NETCDF4,&id)); NC(nc_put_att_int(id,NC_GLOBAL,"rot2ZNE",NC_INT,1,&i1)); NC(nc_put_att_int(id,NC_GLOBAL,"calc_upar",NC_INT,1,&iu));
    for(int j=0;j<3;j++) NC(nc_put_att_double(id,NC_GLOBAL,j==0?"rcv_va":j==1?"rcv_vb":"rcv_rho",NC_DOUBLE,1,&med[j]));
    NC(nc_def_dim(id,"north",1,&dim[0])); NC(nc_def_dim(id,"east",1,&dim[1])); NC(nc_def_var(id,"north",NC_DOUBLE,1,&dim[0],&vn)); NC(nc_def_var(id,"east",NC_DOUBLE,1,&dim[1],&ve));
    for(int c=0;c<3;c++){ snprintf(b,32,"%c",ch[c]); NC(nc_def_var(id,b,NC_DOUBLE,2,dim,&vid[k++])); for(int d=0;d<3;d++){ snprintf(b,32,"%c%c",tolower(ch[d]),ch[c]); NC(nc_def_var(id,b,NC_DOUBLE,2,dim,&vid[k++])); } }
    NC(nc_enddef(id)); NC(nc_put_var_double(id,vn,&z)); NC(nc_put_var_double(id,ve,&z));
    k=0; for(int c=0;c<3;c++){ NC(nc_put_var_double(id,vid[k++],&C[0].u[c])); for(int d=0;d<3;d++) NC(nc_put_var_double(id,vid[k++],&C[0].p[d][c])); }
    NC(nc_close(id)); char *av[]={"x","s.nc",NULL}; optind=1;
    if(kind==0) static_strain_main(2,av); else if(kind==1) static_rotation_main(2,av); else static_stress_main(2,av);
    NC(nc_open("s.nc",NC_NOWRITE,&id));
    double mu=med[1]*med[1]*med[2]*1e10, lam=med[0]*med[0]*med[2]*1e10-2.0*mu;
    for(int a=0;a<3;a++)for(int bb=(kind==1?a+1:a);bb<3;bb++){ double o, e; int v; snprintf(b,32,"%s_%c%c",kind==0?"strain":kind==1?"rotation":"stress",ch[a],ch[bb]); NC(nc_inq_varid(id,b,&v)); NC(nc_get_var_double(id,v,&o));
        e = kind==1? 0.5*(f->p[bb][a]-f->p[a][bb]) : 0.5*(f->p[a][bb]+f->p[bb][a]); if(kind==2) e=2.0*mu*e+(a==bb? lam*(f->p[0][0]+f->p[1][1]+f->p[2][2]):0.0);
        veq("r0",o,e); }
    vreach("end");
}
void h_ststrain_r0(void){ stat0(0); } void h_strotation_r0(void){ stat0(1); } void h_ststress_r0(void){ stat0(2); }
