/* grt okada end to end: options and receivers -> field on disk, against the half-space solution placed by an independent description of the geometry. */
#include "ff.c"
#include "grt/okada/okada.h"
int okada_main(int,char**);
#define RD 0.017453292519943295769236907684886
static double vp_,vs_,ro_; static double alpha(void){ return 1.0-(vs_/vp_)*(vs_/vp_); } static double mu(void){ return ro_*vs_*vs_*1e10; }
static void oargs(bool upar, bool zne){ double I3[3]; AC=0; arg("okada"); arg("-Oo.nc"); arg("-s"); if(upar) arg("-e"); if(zne) arg("-N"); vp_=I3[0]=vsym("vp",4,8); vs_=I3[1]=vsym("vs",1,3.9); ro_=I3[2]=vsym("rho",1,5); vassume(vs_*1.42<vp_); arg(opt("-I",3,I3)); }
/* field at (n,e,depth) of a source whose frame has its origin below (n0,e0): axis 1 along strike, axis 2 horizontal up-dip (90 degrees to the left), axis 3 up */
static void place(double strike, double n, double e, const double u[3], const double up[3][3], double su, double sd, RES *o)
{
    double c=cos(strike*RD), s=sin(strike*RD), B[3][3]={{0,c,s},{0,s,-c},{1,0,0}};        /* B[a][k]: component k (up, north, east) of axis a */
    for(int k=0;k<3;k++){ for(int a=0;a<3;a++) o->o[k]+=su*B[a][k]*u[a]; for(int d=0;d<3;d++)for(int a=0;a<3;a++)for(int b=0;b<3;b++) o->p[d][k]+=sd*B[b][d]*B[a][k]*up[b][a]; }
    (void)n; (void)e;
}
static void opoint(double strike, double dip, double dep, const double pot[4], double n, double e, double zr, RES *o)
{
    double u[3],up[3][3],c=cos(strike*RD),s=sin(strike*RD); int r=grt_okada_dc3d0(alpha(), n*c+e*s, n*s-e*c, -zr, dep, dip, pot[0],pot[1],pot[2],pot[3],u,up); if(r){ memset(u,0,sizeof(u)); memset(up,0,sizeof(up)); }
    place(strike,n,e,u,up,1e-10,1e-15,o);
}
static void tozrt(double n, double e, RES *x)
{
    double r=hypot(n,e), c= r==0?1:n/r, s= r==0?0:e/r, Q[3][3]={{1,0,0},{0,c,s},{0,-s,c}}; RES f; memset(&f,0,sizeof(f));
    for(int i=0;i<3;i++){ for(int k=0;k<3;k++) f.o[i]+=Q[i][k]*x->o[k]; for(int j=0;j<3;j++) for(int k=0;k<3;k++)for(int l=0;l<3;l++) f.p[i][j]+=Q[i][k]*x->p[k][l]*Q[j][l]; }
    if(r!=0){ f.p[2][1]+=f.o[2]/(r*1e5); f.p[2][2]-=f.o[1]/(r*1e5); } else { double rr=f.p[1][1], rt=f.p[1][2]; f.p[2][1]+=rt; f.p[2][2]-=rr; } *x=f;
}
static bool symdip=true;
static void osrc(int kind, bool smu, double m[3], double pot[4])
{
    double v=vsym("S",1,1e9), sc= smu? v : v/mu(); arg(opt(smu?"-Su":"-S",1,&v)); memset(pot,0,4*sizeof(double));
    if(kind==0){ pot[3]=sc; m[0]=m[1]=0; return; }
    m[0]=vsym("strike",0,360); m[1]= symdip? vsym("dip",1,89):35; if(kind==2){ m[2]=vsym("rake",-180,180); pot[0]=sc*cos(m[2]*RD); pot[1]=sc*sin(m[2]*RD); } else pot[2]=sc; arg(opt("-M",kind==2?3:2,m));
}
static void run(void){ optind=1; okada_main(AC,AV); NC(nc_open("o.nc",NC_NOWRITE,&id)); }
/* scattered receivers: one general, one above the source */
static void op(int kind, bool upar, bool zne, bool smu)
{
    vopt("generic",1); double m[3]={0}, pot[4], dep=vsym("dep",1,20); RES e[2]; memset(e,0,sizeof(e)); symdip=!upar; oargs(upar,zne); osrc(kind,smu,m,pot); arg(opt("-Ds",1,&dep));
    PN=2; bool fx= kind!=0; PX[0]= fx?7:vsym("n",-25,25); PY[0]= fx?-6:vsym("e",-25,25); PZ[0]= fx?0.5:vsym("z",0,0.9); PX[1]=PY[1]=0; PZ[1]=0; vassume(PX[0]*PX[0]+PY[0]*PY[0]>1e-4); points(false);
    run(); for(int i=0;i<2;i++){ opoint(m[0],m[1],dep,pot,PX[i],PY[i],PZ[i],&e[i]); if(!zne) tozrt(PX[i],PY[i],&e[i]); }
    compare(2,upar,zne,e); veq("depsrc",getatt("depsrc"),dep); veq("alpha",getatt("alpha"),alpha()); veq("mu",getatt("mu"),mu()); veq("lambda",getatt("lambda"),ro_*1e10*(vp_*vp_-2*vs_*vs_)); vreach("end");
}
#define OK(nm,k) void h_o##nm(void){ op(k,false,false,true); } void h_o##nm##_e(void){ op(k,true,false,false); } void h_o##nm##_eN(void){ op(k,true,true,true); } void h_o##nm##_N(void){ op(k,false,true,false); }
OK(ex,0) OK(dc,2) OK(ts,3)
/* grid: every node is a receiver, medium and depth recorded; scattered points with angles keep them */
void h_ogrid(void)
{
    vopt("generic",1); double m[3]={0}, pot[4], dep=5, zr=vsym("zr",0,4), x0=vsym("x0",-9,9), y0=vsym("y0",-9,9), X[3]={x0,x0+2.2,1}, Y[3]={y0,y0+0.75,0.5}, o[3][6], ax[3], ay[3]; RES e[6]; memset(e,0,sizeof(e)); oargs(false,true); osrc(0,true,m,pot);
    arg("-Ds5"); arg(opt("-Dr",1,&zr)); arg(opt("-X",3,X)); arg(opt("-Y",3,Y)); run();
    for(int i=0;i<3;i++)for(int j=0;j<2;j++) opoint(0,0,dep,pot,x0+i,y0+0.5*j,zr,&e[2*i+j]);
    int dl; size_t l0,l1; NC(nc_inq_dimid(id,"north",&dl)); NC(nc_inq_dimlen(id,dl,&l0)); NC(nc_inq_dimid(id,"east",&dl)); NC(nc_inq_dimlen(id,dl,&l1)); vtrue("npts",l0==3&&l1==2);
    getvar("north",ax); getvar("east",ay); for(int i=0;i<3;i++) veq("north",ax[i],x0+i); for(int j=0;j<2;j++) veq("east",ay[j],y0+0.5*j);
    veq("deprcv",getatt("deprcv"),zr); veq("va",getatt("rcv_va"),vp_); veq("vb",getatt("rcv_vb"),vs_); veq("rho",getatt("rcv_rho"),ro_);
    compare(6,false,true,e); vreach("end");
}
void h_opoints(void)
{
    vopt("generic",1); double m[3]={0}, pot[4], t[2]; RES e[2]; memset(e,0,sizeof(e)); oargs(false,true); osrc(0,true,m,pot); arg("-Ds5"); PN=2; for(int i=0;i<2;i++){ char b[8]; snprintf(b,8,"n%d",i); PX[i]=vsym(b,-9,9); snprintf(b,8,"e%d",i); PY[i]=vsym(b,-9,9); PZ[i]=i; } points(true); run();
    for(int i=0;i<2;i++) opoint(0,0,5,pot,PX[i],PY[i],PZ[i],&e[i]); compare(2,false,true,e);
    getvar("north",t); veq("north",t[1],PX[1]); getvar("east",t); veq("east",t[0],PY[0]); getvar("depth",t); veq("depth",t[1],PZ[1]); getvar("strike",t); veq("strike",t[1],10); getvar("dip",t); veq("dip",t[0],20); getvar("rake",t); veq("rake",t[1],31);
    getvar("rcv_va",t); veq("va",t[1],vp_); getvar("rcv_vb",t); veq("vb",t[1],vs_); getvar("rcv_rho",t); veq("rho",t[1],ro_); vreach("end");
}
/* Coulomb faults: rectangle below the trace of the top edge, dipping to the right of the strike; point kinds at the centre of the rectangle */
static void ocf(int kd, bool upar, bool zne, bool two, bool vertical)
{
    vopt("generic",1); oargs(upar,zne); int n= two?2:1; double g0[10]={1,2,4,6,0,0,0,60,2.5,4.5}, g1[10]={-3,1,-6,-3,100,0,0,90,3,4}; memcpy(FLT[0],g0,sizeof(g0)); memcpy(FLT[1],g1,sizeof(g1)); FLT[0][4]=kd; if(vertical) FLT[0][7]=90; FLT[0][5]=vsym("v1",-9,9); FLT[0][6]=vsym("v2",-9,9); FLT[1][5]=vsym("v3",-9,9); FLT[1][6]=vsym("v4",-9,9);
    vassume(fabs(FLT[0][5])>0.01&&fabs(FLT[0][6])>0.01&&fabs(FLT[1][5])>0.01&&fabs(FLT[1][6])>0.01); faultfile("f.inp",n); arg("-Cf.inp");
    PN=2; PX[0]=7; PY[0]=-6; PZ[0]=0; PX[1]=-2; PY[1]=9; PZ[1]=1; points(false); run();
    RES e[2]; memset(e,0,sizeof(e));
    for(int i=0;i<n;i++){ double *d=FLT[i]; int k=(int)d[4]; double de=d[2]-d[0], dn=d[3]-d[1], L=sqrt(de*de+dn*dn), c=dn/L, s=de/L, sd=sin(d[7]*RD), cd=cos(d[7]*RD), W=(d[9]-d[8])/sd, st=atan2(de,dn)/RD;
        for(int q=0;q<2;q++){ double u[3],up[3][3]; int r;
            if(k>=400){ double pot[4]={0,0,0,0}, l=0.5*L, w=0.5*W*cd; if(k==400){ pot[0]=-d[5]*1e6; pot[1]=d[6]*1e6; } else { pot[2]=d[5]*1e6; pot[3]=d[6]*1e6; }
                opoint(st,d[7],0.5*(d[8]+d[9]),pot,PX[q]-(d[1]+l*c-w*s),PY[q]-(d[0]+l*s+w*c),PZ[q],&e[q]); continue; }
            /* reference point: start of the top edge */
            double n1=PX[q]-d[1], e1=PY[q]-d[0], sl[3]={0,0,0}; if(k!=300) sl[0]=-100*d[5]; if(k==100) sl[1]=100*d[6]; if(k==200) sl[2]=100*d[6]; if(k==300){ sl[2]=100*d[5]; sl[1]=100*d[6]; }
            r=grt_okada_dc3d(alpha(), n1*c+e1*s, n1*s-e1*c, -PZ[q], d[8], d[7], 0, L, -W, 0, sl[0],sl[1],sl[2],u,up); vtrue("accepted",r==0);
            place(st,PX[q],PY[q],u,up,1.0,1e-5,&e[q]); } }
    if(!zne) for(int q=0;q<2;q++) tozrt(PX[q],PY[q],&e[q]);
    compare(2,upar,zne,e); vreach("end");
}
#define OF(k) void h_oc##k(void){ ocf(k,false,true,false,false); } void h_oc##k##_e(void){ ocf(k,true,false,false,false); } void h_oc##k##_v(void){ ocf(k,true,true,false,true); }
OF(100) OF(200) OF(300) OF(400) OF(500)
void h_oc_two(void){ ocf(300,true,false,true,false); }
/* a receiver on the source or above the surface, and incomplete or contradictory options, never give a silent result */
void h_orefuse(void)
{
    int c=vint("case",0,12); bool good= c==0||c==12; AC=0; arg("okada"); if(c!=1) arg("-I6/3/2"); if(c!=2) arg("-Oo.nc"); arg("-s"); double d[10]={1,2,4,6,100,1,1,60,2.5,4.5}; memcpy(FLT[0],d,sizeof(d)); faultfile("f.inp",1);
    if(c==12||c==8||c==9||c==11) arg(c==11?"-Cf.inp+i1/1":"-Cf.inp"); else { if(c!=3) arg("-S1e20"); if(c!=4) arg("-Ds3"); if(c==3) arg("-M1/2/3"); }
    if(c==8) arg("-S1e3"); if(c==9) arg("-Ds3"); PN=1; PX[0]=3; PY[0]=4; PZ[0]=0; if(c==5||c==10) points(false);
    if(c!=6&&c!=10) arg("-X3/3/1"); if(c!=7&&c!=10) arg("-Y4/4/1"); if(c!=10) arg("-Dr0"); if(c==10) good=true;
    vexit_ok(); if(good) vnoerr("valid_input_refused"); optind=1; okada_main(AC,AV); vtrue("accepted",good); vreach("end");
}
