/* Coulomb finite faults: file reading, subdivision geometry, and the superposed displacement field. */
#define main_included 1
#include "stsyn.c"
static double FLT[3][10];      /* e0 n0 e1 n1 kode v1 v2 dip top bot */
static void faultfile(const char *path, int n)
{
    FILE *f=fopen(path,"w"); fprintf(f,"  #   X-start    Y-start     X-fin      Y-fin   Kode  rt.lat    reverse   dip angle     top      bot\nxxx xxxxxxxxxx xxxxxxxxxx\n");
    for(int i=0;i<n;i++){ fprintf(f," 1 "); for(int k=0;k<4;k++) fprintf(f," %s ",vstr(FLT[i][k])); fprintf(f," %d ",(int)FLT[i][4]); for(int k=5;k<10;k++) fprintf(f," %s ",vstr(FLT[i][k])); fprintf(f," name %d\n",i); }
    fclose(f);
}
/* reading: strike, rake, slip, components */
void h_load(void)
{
    int n=2; bool inr=vint("inr",0,1); const char *p= inr?"f.inr":"f.inp"; static const int K5[5]={100,200,300,400,500}; static const char *nm[10]={"e0","n0","e1","n1","kode","v1","v2","dip","top","bot"};
    for(int i=0;i<n;i++){ for(int k=0;k<10;k++){ char b[16]; snprintf(b,16,"%s_%d",nm[k],i); if(k==4) FLT[i][k]= i==0? K5[vint("kode",0,4)]:100; else if(k<9) FLT[i][k]= k==7? vsym(b,0.1,90) : vsym(b,-50,50); else FLT[i][k]=FLT[i][8]+vsym(b,0.1,20); } 
        for(int k=0;k<2;k++){ double q=FLT[i][2+k]-FLT[i][k], v=FLT[i][5+k]; vassume(q*q>1e-4); vassume(v*v>1e-4); } }
    faultfile(p,n); bool ok= !inr||FLT[0][4]==100; vexit_ok(); if(ok) vnoerr("valid_refused");
    size_t nf=0; FINITE_FAULT *f=grt_finite_fault_load_coulomb(p,&nf); vtrue("accepted",ok); vtrue("count",nf==2);
    for(int i=0;i<n;i++){ double *d=FLT[i]; int kd=(int)d[4]; vtrue("kode",f[i].kode==kd);
        veq("e0",f[i].east_begin,d[0]); veq("n0",f[i].north_begin,d[1]); veq("e1",f[i].east_end,d[2]); veq("n1",f[i].north_end,d[3]); veq("dip",f[i].dip,d[7]); veq("top",f[i].top,d[8]); veq("bot",f[i].bot,d[9]);
        double L=hypot(d[2]-d[0],d[3]-d[1]); veq("cosS*L",cos(f[i].strike*DEG1)*L,d[3]-d[1]); veq("sinS*L",sin(f[i].strike*DEG1)*L,d[2]-d[0]);
        double rt=0,rv=0,te=0,in=0; if(kd==100&&inr){ rt=-d[6]*cos(d[5]*DEG1); rv=d[6]*sin(d[5]*DEG1); } else if(kd==100||kd==400){ rt=d[5]; rv=d[6]; } else if(kd==200){ rt=d[5]; te=d[6]; } else if(kd==300){ te=d[5]; rv=d[6]; } else { te=d[5]; in=d[6]; }
        veq("rt",f[i].right_lateral,rt); veq("rv",f[i].reverse,rv); veq("te",f[i].tensile,te); veq("in",f[i].inflate,in);
        if(kd==100){ veq("slip",f[i].slip*f[i].slip,rt*rt+rv*rv); veq("slip*cos",f[i].slip*cos(f[i].rake*DEG1),-rt); veq("slip*sin",f[i].slip*sin(f[i].rake*DEG1),rv); }
        if(kd==400) { double s=hypot(rt,rv); veq("rake4c",s*cos(f[i].rake*DEG1),-rt); veq("rake4s",s*sin(f[i].rake*DEG1),rv); } }
    vreach("end");
}
/* geometry and format errors are refused */
void h_bad(void)
{
    int w=vint("field",0,5); double *d=FLT[0]; double def[10]={0,0,3,4,100,1,1,45,1,5}; memcpy(d,def,sizeof(def)); bool good=true;
    if(w==0){ d[7]=vsym("dip",-100,200); good= d[7]>0&&d[7]<=90; } if(w==1){ d[8]=vsym("top",-5,15); good= d[8]<5; } if(w==2){ d[2]=vsym("e1",-1,1); d[3]=0; good= d[2]!=0; } if(w==3){ d[4]=vint("kode",0,6)*100; good= d[4]>=100&&d[4]<=500; }
    faultfile("f.inp",1);
    if(w==4){ good=false; FILE *f=fopen("f.inp","a"); fprintf(f," 1 0 0 3 4 100 1 1 45 1\n"); fclose(f); }    /* a column is missing */
    if(w==5){ good=false; FILE *f=fopen("f.inp","w"); fprintf(f,"h\nh\n"); fclose(f); }
    vexit_ok(); if(good) vnoerr("valid_refused"); size_t n; grt_finite_fault_load_coulomb("f.inp",&n); vtrue("accepted",good); vreach("end");
}
/* subdivision: the pieces tile the rectangle exactly once; centre of each piece on the fault plane */
static void tile(int wl)
{
    FINITE_FAULT f; memset(&f,0,sizeof(f)); f.kode=100; f.east_begin=vsym("e0",-9,9); f.north_begin=vsym("n0",-9,9); double st=vsym("strike",-180,180), L=vsym("L",0.5,3), H=vsym("H",0.3,2), top=vsym("top",0,9), dip=vsym("dip",1,90), slip=vsym("slip",0,9), d1=vsym("dL",0.4,4), d2=vsym("dW",0.4,4);
    f.east_end=f.east_begin+L*sin(st*DEG1); f.north_end=f.north_begin+L*cos(st*DEG1); f.strike=st; f.dip=dip; f.top=top; f.bot=top+H; f.slip=slip;
    double W,LL; size_t nW,nL; if(wl) { double s0=sin(dip*DEG1); vassume(s0>0.3); vassume(H<1.5); }
    else { f.dip=dip=30; }
    vassume(H/sin(dip*DEG1) <= 3*d2 && L<=3*d1);
    grt_finite_fault_subdiv(&f,d1,d2,&W,&LL,&nW,&nL);
    veq("W",W*sin(dip*DEG1),H); veq("L",LL,L); vtrue("nonempty",nW>=1&&nL>=1);
    double aw=0, al=0; FINITE_SUBFAULT s;
    for(size_t i=0;i<nW;i++){ grt_finite_fault_subfault(&f,d1,d2,W,LL,i,0,&s); vtrue("width",s.width>0&&s.width<=d2); veq("dcentre",s.depsrc,top+(aw+0.5*s.width)*sin(dip*DEG1)); aw+=s.width; 
        veq("pot",s.potency,slip*s.width*s.length*1e12); }
    veq("tileW",aw,W);
    for(size_t j=0;j<nL;j++){ grt_finite_fault_subfault(&f,d1,d2,W,LL,nW-1,j,&s); vtrue("length",s.length>0&&s.length<=d1); double l=al+0.5*s.length, w=(W-0.5*s.width)*cos(dip*DEG1); al+=s.length;
        veq("ceast",s.east,f.east_begin+l*sin(st*DEG1)+w*cos(st*DEG1)); veq("cnorth",s.north,f.north_begin+l*cos(st*DEG1)-w*sin(st*DEG1)); }
    veq("tileL",al,LL); vreach("end");
}
void h_tile(void){ tile(0); }
/* field of a finite fault = sum over pieces of the point sources (double couple from both slip components, tensile, inflation),
 * every component system, receivers on a grid or scattered */
static void ff(int kd, bool upar, bool zne, bool two, int sub)
{
    vopt("generic",1); NS=2; DS[0]=2; DS[1]=6; ND=2; DD[0]=0; DD[1]=60; NR=2; args(upar,zne);
    int n= two?2:1; double g0[10]={1,2,4,6,0,0,0,60,2.5,4.5}, g1[10]={-3,1,-6,-3,100,0,0,90,3,4}; memcpy(FLT[0],g0,sizeof(g0)); memcpy(FLT[1],g1,sizeof(g1)); FLT[0][4]=kd; FLT[0][5]=vsym("v1",-9,9); FLT[0][6]=vsym("v2",-9,9); FLT[1][5]=vsym("v3",-9,9); FLT[1][6]=vsym("v4",-9,9);
    vassume(fabs(FLT[0][5])>0.01&&fabs(FLT[0][6])>0.01&&fabs(FLT[1][5])>0.01&&fabs(FLT[1][6])>0.01);
    faultfile("f.inp",n); double dl=60,dw=60; if(sub){ dl=3; dw=1.5; arg("-Cf.inp+i3/1.5"); } else arg("-Cf.inp+i60/60");
    bool grid=!upar; PN=2; PX[0]=10; PY[0]=-7; PZ[0]=0; PX[1]=3; PY[1]=11; PZ[1]= 1; if(grid){ PN=1; arg("-X10/10/1"); arg("-Y-7/-7/1"); arg("-Dr0"); } else points(false);
    makelib(-1,upar);
    optind=1; static_syn_main(AC,AV); NC(nc_open("o.nc",NC_NOWRITE,&id));
    RES e[2]; memset(e,0,sizeof(e));
    for(int i=0;i<n;i++){ double *d=FLT[i]; int k=(int)d[4]; double de=d[2]-d[0], dn=d[3]-d[1], L=sqrt(de*de+dn*dn), ce=de/L, cn=dn/L, sd=sin(d[7]*DEG1), cd=cos(d[7]*DEG1), W=(d[9]-d[8])/sd;
        bool pt= k>=400; double st=atan2(de,dn)/DEG1; double a=dl, b=dw; if(pt){ a=L; b=W; }
        for(double w0=0; w0<W-1e-9; w0+=b) for(double l0=0; l0<L-1e-9; l0+=a){ double w1=fmin(W,w0+b), l1=fmin(L,l0+a), w=0.5*(w0+w1), l=0.5*(l0+l1), ar=(w1-w0)*(l1-l0)*1e12; if(pt) ar=1e6;
            double sn=d[1]+l*cn-w*cd*ce, se=d[0]+l*ce+w*cd*cn, sz=d[8]+w*sd; double m[6]={st,d[7],0};
            for(int q=0;q<PN;q++){ double pn=PX[q]-sn, pe=PY[q]-se;
                #define ADD(kind,rake,amt) do{ m[2]=rake; addpoint(kind,(amt)*ar,true,m,pn,pe,sz,PZ[q],upar,true,&e[q]); }while(0)
                if(k==100||k==400){ ADD(2,180.0,d[5]); ADD(2,90.0,d[6]); } if(k==200){ ADD(2,180.0,d[5]); ADD(3,0.0,d[6]); } if(k==300){ ADD(3,0.0,d[5]); ADD(2,90.0,d[6]); } if(k==500){ ADD(3,0.0,d[5]); ADD(0,0.0,d[6]); } } } }
    if(!zne) for(int q=0;q<PN;q++){ double r=hypot(PX[q],PY[q]), c=PX[q]/r, s=PY[q]/r, Q[3][3]={{1,0,0},{0,c,s},{0,-s,c}}; RES f; memset(&f,0,sizeof(f));
        for(int i=0;i<3;i++){ for(int k=0;k<3;k++) f.o[i]+=Q[i][k]*e[q].o[k]; for(int j=0;j<3;j++) for(int k=0;k<3;k++)for(int l=0;l<3;l++) f.p[i][j]+=Q[i][k]*e[q].p[k][l]*Q[j][l]; }
        f.p[2][1]+=f.o[2]/(r*1e5); f.p[2][2]-=f.o[1]/(r*1e5); e[q]=f; }
    compare(PN,upar,zne,e); vreach("end");
}
#define FK(k) void h_ff##k(void){ ff(k,false,true,false,1); } void h_ff##k##_e(void){ ff(k,true,false,false,0); }
FK(100) FK(200) FK(300) FK(400) FK(500)
void h_ff_two(void){ ff(300,true,true,true,0); }
/* default piece size: smallest spacing of the library in distance and source depth; option errors */
void h_default(void)
{
    NS=3; ND=3; DS[0]=1; DS[1]=1+vsym("a",0.1,5); DS[2]=DS[1]+vsym("b",0.1,5); DD[0]=0; DD[1]=vsym("c",0.1,5); DD[2]=DD[1]+vsym("d",0.1,5); double nor[1]={0};
    STGRNLIB *l=grt_stgrnlib_alloc(3,DS,1,DR,1,nor,3,DD,false); double m=grt_stgrnlib_default_subfault_size(l);
    double e=fmin(fmin(DS[1]-1,DS[2]-DS[1]),fmin(DD[1],DD[2]-DD[1])); veq("size",m,e); vreach("end");
}
void h_ffrefuse(void)
{
    int w=vint("case",0,6); bool good= w==0; NS= w==1?1:2; DS[0]=2; DS[1]=6; ND=2; DD[0]=0; DD[1]=60; NR=1; args(false,true); double d[10]={1,2,4,6,100,1,1,60,2.5,4.5}; if(w==6){ d[8]=0.1; d[9]=2.1; } memcpy(FLT[0],d,sizeof(d)); faultfile("f.inp",1);
    arg(w==3?"-Cf.inp+i0/1":w==4?"-Cf.inp+j1/1":"-Cf.inp+i60/60"); if(w==2) arg("-Ds3"); if(w==5) arg("-S1"); arg("-X3/3/1"); arg("-Y4/4/1"); makelib(-1,false);
    optind=1; vexit_ok(); if(good) vnoerr("valid_refused"); static_syn_main(AC,AV); vtrue("accepted",good); vreach("end");
}
