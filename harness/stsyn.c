/* Static synthesis end to end: Green's function library on disk -> displacement field on disk (grid or scattered points),
 * point sources and Coulomb finite faults, interpolation in distance and depths. */
#include "verif.h"
#include "grt.h"
#include "rad.h"
int static_syn_main(int,char**);
#define NC(x) do{ if((x)!=NC_NOERR) vtrue("netcdf",false); }while(0)
static int NS=1, NR=1, ND=2; static double DS[3]={2,3,5}, DR[3]={0,1,3}, DD[4]={1,2,4,8};
static double G[3][2][2][4][6][3];      /* [value,z,r][depsrc][deprcv][distance][source][component] */
static double MV[2][3];                 /* medium at source depths */
static double MOD[2][6]={{2.5,5,3,2.5,100,50},{0,8,4,3,200,100}};
static void makelib(int kind, bool upar)
{
    double nor[1]={0}; char n[48];
    STGRNLIB *l=grt_stgrnlib_alloc(NS,DS,NR,DR,1,nor,ND,DD,upar);
    grt_stgrnlib_set_modarr(l,2,(const real_t(*)[6])MOD);
    for(int s=0;s<NS;s++){ snprintf(n,48,"va%d",s); l->src_va[s]=MV[s][0]=vsym(n,1,9); snprintf(n,48,"vb%d",s); l->src_vb[s]=MV[s][1]=vsym(n,0.5,5); snprintf(n,48,"ro%d",s); l->src_rho[s]=MV[s][2]=vsym(n,1,5);
      for(int r=0;r<NR;r++){ l->rcv_va[r]=l->rcv_vb[r]=l->rcv_rho[r]=1;
        for(int d=0;d<ND;d++)for(int im=0;im<6;im++)for(int c=0;c<3;c++)for(int t=0;t<(upar?3:1);t++){
            double v=7.75; if(ORD[im]==0&&c==2) v=0; else if(kind<0||SRC_NEED(kind,im)){ snprintf(n,48,"g%d_%d_%d_%d_%d_%d",t,s,r,d,im,c); v=vsym(n,-9,9); }
            G[t][s][r][d][im][c]=v; (t==0?l->u:t==1?l->uiz:l->uir)[s][r][d][im][c]=v; } } }
    grt_stgrnlib_save_nc(l,"g.nc"); grt_stgrnlib_free(l);
}
/* interpolation weights, written independently: value = sum w[i]*sample[i] */
static bool weights(const double *x, int n, double q, double *w)
{
    for(int i=0;i<n;i++) w[i]=0;
    if(n==1){ if(q!=x[0]) return false; w[0]=1; return true; }
    if(q<x[0]||q>x[n-1]) return false;
    for(int i=0;i<n-1;i++) if(q<=x[i+1]){ double t=(q-x[i])/(x[i+1]-x[i]); w[i]+=1-t; w[i+1]+=t; return true; }
    return false;
}
typedef struct { double o[3], p[3][3]; } RES;
static void torot(double c, double s, double r, bool upar, RES *e)       /* (z,r,t) with plain (1/r)d_theta -> (z,n,e) */
{
    double u[3]={e->o[0],e->o[1],e->o[2]}, w[3][3], Q[3][3]={{1,0,0},{0,c,s},{0,-s,c}};
    for(int d=0;d<3;d++)for(int k=0;k<3;k++) w[d][k]=e->p[d][k];
    if(upar){ double ror= r==0? w[1][1]:u[1]/r, tor= r==0? w[1][2]:u[2]/r; w[2][1]-=tor; w[2][2]+=ror; }
    for(int k=0;k<3;k++){ e->o[k]=0; for(int l=0;l<3;l++) e->o[k]+=Q[l][k]*u[l]; for(int d=0;d<3;d++) if(upar){ e->p[d][k]=0; for(int a=0;a<3;a++)for(int b=0;b<3;b++) e->p[d][k]+=Q[a][d]*w[a][b]*Q[b][k]; } }
}
static void addpoint(int kind, double M0, bool smu, const double *m, double n, double ea, double zs, double zr, bool upar, bool zne, RES *out)
{
    double dist=hypot(n,ea), az= dist==0? 0.0 : atan2(ea,n), ws[3], wr[3], wd[4];
    vtrue("depth_inside", weights(DS,NS,zs,ws) && weights(DR,NR,zr,wr));
    if(!weights(DD,ND,dist,wd)) return;      /* outside the distances of the library: zero */
    for(int s=0;s<NS;s++)for(int r=0;r<NR;r++)for(int d=0;d<ND;d++){
        double w=ws[s]*wr[r]*wd[d]; if(w==0) continue;
        double rc=DD[d]*1e5, Me= smu? M0*MV[s][1]*MV[s][1]*MV[s][2]*1e10 : M0; RES e; memset(&e,0,sizeof(e));
        rad(kind,Me,az,MV[s][0]/MV[s][1],m);
        for(int im=0;im<6;im++)for(int k=0;k<3;k++){ if(!SRC_NEED(kind,im)||(ORD[im]==0&&k==2)) continue;
            e.o[k]+=A[im][k]*G[0][s][r][d][im][k];
            if(upar){ e.p[0][k]+=1e-5*A[im][k]*G[1][s][r][d][im][k]; e.p[1][k]+=1e-5*A[im][k]*G[2][s][r][d][im][k];
                e.p[2][k]+= DD[d]==0? 1e-5*B[im][k]*G[2][s][r][d][im][k] : B[im][k]*G[0][s][r][d][im][k]/rc; } }
        if(zne) torot(cos(az),sin(az),rc,upar,&e);
        for(int k=0;k<3;k++){ out->o[k]+=w*e.o[k]; for(int j=0;j<3;j++) out->p[j][k]+=w*e.p[j][k]; }
    }
}
static char *cat(const char *a, const char *b){ char *r=malloc(strlen(a)+strlen(b)+1); strcpy(r,a); strcat(r,b); return r; }
static char *opt(const char *o, int n, const double *v){ char *r=strdup(o); for(int i=0;i<n;i++){ if(i) r=cat(r,"/"); r=cat(r,vstr(v[i])); } return r; }
static char *AV[24]; static int AC;
static void arg(char *s){ AV[AC++]=s; AV[AC]=NULL; }
static void args(bool upar, bool zne){ AC=0; arg("static_syn"); arg("-Gg.nc"); arg("-Oo.nc"); arg("-s"); if(upar) arg("-e"); if(zne) arg("-N"); }
static void source(int kind, double *m)
{
    char b[8];
    if(kind==1){ for(int i=0;i<3;i++){ snprintf(b,8,"f%d",i); m[i]=vsym(b,-9,9); } arg(opt("-F",3,m)); }
    if(kind==2||kind==3){ m[0]=vsym("strike",0,360); m[1]=vsym("dip",0,90); m[2]= kind==2? vsym("rake",-180,180):0; arg(opt("-M",kind==2?3:2,m)); }
    if(kind==4){ for(int i=0;i<6;i++){ snprintf(b,8,"m%d",i); m[i]=vsym(b,-9,9); } arg(opt("-T",6,m)); }
}
static int id; static void getvar(const char *n, double *o){ int v; NC(nc_inq_varid(id,n,&v)); NC(nc_get_var_double(id,v,o)); }
static double getatt(const char *n){ double x=0; NC(nc_get_att_double(id,NC_GLOBAL,n,&x)); return x; }
static void compare(int np, bool upar, bool zne, const RES *e)
{
    const char *ch= zne?"ZNE":"ZRT"; char nm[4]; double o[8]; int iv;
    NC(nc_get_att_int(id,NC_GLOBAL,"rot2ZNE",&iv)); vtrue("rot2ZNE",iv==zne); NC(nc_get_att_int(id,NC_GLOBAL,"calc_upar",&iv)); vtrue("calc_upar",iv==upar);
    for(int k=0;k<3;k++){ snprintf(nm,4,"%c",ch[k]); getvar(nm,o); for(int i=0;i<np;i++) veq("syn",o[i],e[i].o[k]);
        if(upar) for(int d=0;d<3;d++){ snprintf(nm,4,"%c%c",tolower(ch[d]),ch[k]); getvar(nm,o); for(int i=0;i<np;i++) veq("synpar",o[i],e[i].p[d][k]); } }
}
static int PN; static double PX[4], PY[4], PZ[4];
static void points(bool geom){ FILE *f=fopen("q.txt","w"); fprintf(f,"# north east depth\n"); for(int i=0;i<PN;i++){ fprintf(f,"%s %s  %s",vstr(PX[i]),vstr(PY[i]),vstr(PZ[i])); if(geom) fprintf(f," 10 20 %d",30+i); fprintf(f,"\n"); if(i==0) fprintf(f,"\n"); } fclose(f); arg("-Qq.txt"); }
/* one receiver exactly at a library distance or between two of them, every source kind and output form */
static void ps(int kind, bool upar, bool zne, bool smu, int where)
{
    vopt("generic",1); double m[6]={0}, M0=vsym("M0",1,smu?1e9:1e20); RES e; memset(&e,0,sizeof(e));
    args(upar,zne); arg(opt(smu?"-Su":"-S",1,&M0)); source(kind,m);
    PN=1; PZ[0]=0; if(where==0){ ND=1; DD[0]=0; PX[0]=PY[0]=0; } else { DD[0]= where==1? 0.0:1.0; DD[1]=40; PX[0]=vsym("n",-25,25); PY[0]=vsym("e",-25,25); vassume(PX[0]*PX[0]+PY[0]*PY[0]>1.21); }
    points(false); makelib(kind,upar);
    optind=1; static_syn_main(AC,AV); NC(nc_open("o.nc",NC_NOWRITE,&id));
    addpoint(kind,M0,smu,m,PX[0],PY[0],DS[0],PZ[0],upar,zne,&e);
    compare(1,upar,zne,&e); veq("depsrc",getatt("depsrc"),DS[0]); NC(nc_close(id)); vreach("end");
}
#define K(nm,k) void h_##nm(void){ ps(k,false,false,true,2); } void h_##nm##_e(void){ ps(k,true,false,false,2); } void h_##nm##_eN(void){ ps(k,true,true,true,2); } void h_##nm##_N0(void){ ps(k,true,true,false,1); } void h_##nm##_at0(void){ ps(k,true,vint("zne",0,1),false,0); }
K(ex,0) K(sf,1) K(dc,2) K(ts,3) K(mt,4)
/* interpolation in distance: library distances and receiver position arbitrary */
void h_dist(void)
{
    double m[6]={0}, M0=1e20; RES e; memset(&e,0,sizeof(e)); ND=4; double sc= vint("small",0,1)? 1e-3:1.0; DD[0]=vsym("d0",0,3); for(int i=1;i<4;i++){ char b[8]; snprintf(b,8,"s%d",i); DD[i]=DD[i-1]+sc*vsym(b,0.3,3); }
    args(false,false); arg(opt("-S",1,&M0)); PN=1; PX[0]=0; PY[0]=vsym("e",0,15); PZ[0]=0; 
    vassume(PY[0]==DD[0] || PY[0]==DD[3] || (PY[0]>DD[0]&&PY[0]<DD[3]) || PY[0]<DD[0]-1e-6 || PY[0]>DD[3]+1e-6);
    points(false); makelib(0,false);
    optind=1; static_syn_main(AC,AV); NC(nc_open("o.nc",NC_NOWRITE,&id));
    addpoint(0,M0,false,m,PX[0],PY[0],DS[0],0,false,false,&e); compare(1,false,false,&e); vreach("end");
}
/* interpolation in source and receiver depth, medium of each source depth, receiver medium looked up in the model */
void h_depth(void)
{
    vopt("generic",1); double m[6]={30,40,0}, M0=vsym("M0",1,1e9), zs=vsym("zs",2,3), zr=vsym("zr",0,1); RES e; memset(&e,0,sizeof(e)); NS=NR=2; ND=1; DD[0]=5;
    bool grid=vint("grid",0,1); args(false,true); arg(opt("-Su",1,&M0)); arg("-M30/40"); arg(opt("-Ds",1,&zs)); PN=1; PX[0]=3; PY[0]=4; PZ[0]=zr; if(grid){ arg(opt("-Dr",1,&zr)); arg("-X3/3/1"); arg("-Y4/4/1"); } else points(true);
    vassume((zs==2||zs>2.000001)&&(zs==3||zs<2.999999)&&(zr==0||zr>0.000001)&&(zr==1||zr<0.999999));
    makelib(3,false); optind=1; static_syn_main(AC,AV); NC(nc_open("o.nc",NC_NOWRITE,&id));
    addpoint(3,M0,true,m,3,4,zs,zr,false,true,&e); compare(1,false,true,&e); veq("depsrc",getatt("depsrc"),zs); if(grid) veq("deprcv",getatt("deprcv"),zr);
    else { double t; getvar("strike",&t); veq("strike",t,10); getvar("dip",&t); veq("dip",t,20); getvar("rake",&t); veq("rake",t,30); getvar("depth",&t); veq("depth",t,zr); }
    vreach("end");
}
/* grid layout: every node is its own receiver; the library grid is reused when no new grid is given */
void h_grid(void)
{
    double m[6]={0}, M0=vsym("M0",1,1e20), x0=vsym("x0",-9,9), y0=vsym("y0",-9,9), zr=vsym("zr",0,9), ax[8], ay[8]; int np=6; RES e[6]; memset(e,0,sizeof(e)); ND=2; DD[0]=0; DD[1]=99; DR[0]=zr;
    double X[3]={x0,x0+2.2,1}, Y[3]={y0,y0+1.25,0.5};
    args(false,false); arg(opt("-S",1,&M0)); arg(opt("-X",3,X)); arg(opt("-Y",3,Y)); makelib(0,false); if(vint("dr",0,1)) arg(opt("-Dr",1,&zr));
    vassume(zr!=2.5); optind=1; static_syn_main(AC,AV); NC(nc_open("o.nc",NC_NOWRITE,&id));
    getvar("north",ax); getvar("east",ay); int dl; size_t l0,l1; NC(nc_inq_dimid(id,"north",&dl)); NC(nc_inq_dimlen(id,dl,&l0)); NC(nc_inq_dimid(id,"east",&dl)); NC(nc_inq_dimlen(id,dl,&l1)); vtrue("npts",l0==3&&l1==3);
    for(int i=0;i<3;i++){ veq("north",ax[i],x0+i); veq("east",ay[i],y0+0.5*i); }
    const char *vn[3]={"rcv_va","rcv_vb","rcv_rho"}; for(int k=0;k<3;k++) veq("medium",getatt(vn[k]),MOD[zr<2.5?0:1][1+k]);
    double o[3][9]; getvar("Z",o[0]); getvar("R",o[1]); getvar("T",o[2]);
    for(int i=0;i<3;i++)for(int j=0;j<3;j++){ RES r; memset(&r,0,sizeof(r)); addpoint(0,M0,false,m,x0+i,y0+0.5*j,DS[0],zr,false,false,&r); for(int k=0;k<3;k++) veq("node",o[k][3*i+j],r.o[k]); }
    vreach("end");
}
/* library written on a north/east grid: receivers are matched to its distances whatever the order of the grid nodes */
void h_libgrid(void)
{
    double nor[2], eas[2], M0=1e20, g[4][2]; nor[0]=-2.5+0.25*vint("n0",0,12); nor[1]=nor[0]+1.5; int ec=vint("e0",0,2); eas[0]= ec==0?-1:ec==1?0:-1.5; eas[1]= ec==0?2:1.5;   /* includes symmetric nodes at equal distance */
    STGRNLIB *l=grt_stgrnlib_alloc(1,DS,1,DR,2,nor,2,eas,false); grt_stgrnlib_set_modarr(l,2,(const real_t(*)[6])MOD); l->src_va[0]=5; l->src_vb[0]=3; l->src_rho[0]=2;
    for(int d=0;d<4;d++){ int c=d; double r=hypot(nor[d/2],eas[d%2]); for(int q=d-1;q>=0;q--) if(fabs(hypot(nor[q/2],eas[q%2])-r)<1e-12) c=q;
        for(int k=0;k<2;k++){ char b[16]; snprintf(b,16,"g%d_%d",d,k); g[d][k]= c<d? g[c][k] : vsym(b,-9,9); l->u[0][0][d][0][k]=g[d][k]; } }
    grt_stgrnlib_save_nc(l,"g.nc"); grt_stgrnlib_free(l);
    args(false,false); arg(opt("-S",1,&M0)); optind=1; static_syn_main(AC,AV); NC(nc_open("o.nc",NC_NOWRITE,&id));
    double o[4],t[4]; getvar("Z",o); for(int d=0;d<4;d++) veq("Z",o[d],g[d][0]); getvar("R",o); for(int d=0;d<4;d++) veq("R",o[d],g[d][1]); getvar("north",t); veq("north",t[1],nor[1]); getvar("east",t); veq("east",t[1],eas[1]);
    vreach("end");
}
/* file round trip of the library */
void h_roundtrip(void)
{
    NS=2; NR=2; ND=2; bool upar=vint("upar",0,1); DD[0]=vsym("r0",0,3); DD[1]=DD[0]+vsym("dr",0.01,5); DS[1]=2+vsym("ds",0.01,3); makelib(-1,upar);
    STGRNLIB *l=grt_stgrnlib_load_nc("g.nc"); vtrue("dims",l->ndepsrc==2&&l->ndeprcv==2&&l->nr==2&&l->nnorth==1&&l->neast==2&&l->calc_upar==upar&&l->nlayer==2);
    veq("depsrc",l->depsrcs[1],DS[1]); veq("deprcv",l->deprcvs[1],DR[1]); for(int d=0;d<2;d++) veq("east",l->easts[d],DD[d]);
    for(int s=0;s<2;s++){ veq("va",l->src_va[s],MV[s][0]); veq("vb",l->src_vb[s],MV[s][1]); veq("rho",l->src_rho[s],MV[s][2]); }
    for(int i=0;i<2;i++)for(int j=0;j<6;j++) veq("model",l->modarr[i][j],MOD[i][j]);
    for(int t=0;t<(upar?3:1);t++)for(int s=0;s<2;s++)for(int r=0;r<2;r++)for(int d=0;d<2;d++)for(int im=0;im<6;im++)for(int c=0;c<3;c++) if(!(ORD[im]==0&&c==2)) veq("gf",(t==0?l->u:t==1?l->uiz:l->uir)[s][r][d][im][c],G[t][s][r][d][im][c]);
    vreach("end");
}
/* option combinations that would leave a depth or a source undefined are refused, all others accepted */
void h_refuse(void)
{
    bool md=vint("mode",0,1); ND=1; DD[0]=5; double M0=1e20; int src= md? vint("src",0,2):0, q= md? 2*vint("q",0,1):vint("q",0,1); NS= md?1:vint("ns",1,2); NR= md?1:vint("nr",1,2); bool ds= !md&&vint("ds",0,1), dr= !md&&vint("dr",0,1), e= md&&vint("e",0,1), up= md&&vint("up",0,1); AC=0; 
    double zs= ds? vsym("zs",1,4):2, zr= dr||q==1? vsym("zr",0,2):0; args(e,true); if(src!=1) arg("-S1e20"); if(src==2){ arg("-F1/2/3"); arg("-M10/20"); } if(ds) arg(opt("-Ds",1,&zs)); if(dr) arg(opt("-Dr",1,&zr));
    PN=1; PX[0]=3; PY[0]=4; PZ[0]=zr; if(q==1) points(false); if(q==2) arg("-X3/3/1"); makelib(0,up);
    const double at=1e-6; bool zsin= NS==1? fabs(zs-2)<at : zs>2-at&&zs<3+at, zrin= NR==1? fabs(zr)<at : zr>-at&&zr<1+at; vassume(fabs(zs-2)>2*at||zs==2); vassume(fabs(zs-3)>2*at||zs==3); vassume(zr>2*at||zr==0); vassume(fabs(zr-1)>2*at||zr==1);
    bool good= src==0 && q!=2 && !(NS>1&&!ds) && !(e&&!up) && !(ds&&!zsin) && (q==1? !dr&&zrin : (!(NR>1&&!dr) && !(dr&&!zrin)));
    optind=1; vexit_ok(); if(good) vnoerr("valid_input_refused");
    static_syn_main(AC,AV); vtrue("accepted",good); vreach("end");
}
